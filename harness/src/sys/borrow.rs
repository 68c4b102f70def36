//! Programs of a few calls on a container, of which the compiler must reject those in which something
//! borrowed from it is used after the container was changed, moved or dropped, or while it is borrowed
//! otherwise, and accept those in which borrows do not clash.

use std::process::Command;

struct Cont {
    /// with `E` for the element or value type, `Q` for that of hashed elements and `K` for that of keys
    ty: &'static str,
    /// calls that lend something, for sharing
    shared: &'static [&'static str],
    /// calls that lend something exclusively
    excl: &'static [&'static str],
    /// calls that change the container
    muts: &'static [&'static str],
    /// calls that only look
    reads: &'static [&'static str],
    /// calls that put the element `@` into the container
    puts: &'static [&'static str],
    /// lookups of the key `@`
    finds: &'static [&'static str],
    /// what yields exclusive references to elements, as an iterator
    slots: &'static [&'static str],
    /// exclusive iterators by name: the type with `E` and `'i`, and the call
    named: &'static [(&'static str, &'static str)],
    /// what yields elements of which a part must not change, and that part
    fixed: &'static [(&'static str, &'static str)],
}

macro_rules! slices {
    ($ty:literal, [$($shared:literal),*], [$($muts:literal),*]) => {
        Cont {
            ty: $ty,
            shared: &["c.as_slice()", "AsRef::<[E]>::as_ref(&c)", "&*c", "c.iter()", "c.first()", "c.get(0)", "&c[0]", "c.iter().next()" $(, $shared)*],
            excl: &["&mut *c", "c.as_slice_mut()", "c.iter_mut()", "c.first_mut()", "&mut c[0]", "c.iter_mut().next()"],
            muts: &["c.push(e())", "c.pop()", "c.clear()", "c.insert(0, e())", "c.remove(0)", "c.reserve(9)", "c.append(&[])", "c.assign(&[])" $(, $muts)*],
            reads: &["c.len()", "c.is_empty()", "c.is_full()", "c.capacity()"],
            puts: &["c.push(@)", "c.insert(0, @)"],
            finds: &[],
            slots: &["c.iter_mut()"],
            named: &[],
            fixed: &[("c.iter()", "x"), ("c.as_slice()", "x"), ("c.first()", "x")],
        }
    };
}

macro_rules! lists {
    ($ty:literal) => {
        Cont {
            ty: $ty,
            shared: &["c.front()", "c.back()", "c.iter()", "c.iter().next()"],
            excl: &["c.front_mut()", "c.back_mut()", "c.iter_mut()", "c.iter_mut().next()"],
            muts: &["c.push_back(e())", "c.push_front(e())", "c.pop_back()", "c.pop_front()", "c.clear()"],
            reads: &["c.len()", "c.size()", "c.is_empty()", "c.empty()"],
            puts: &["c.push_back(@)", "c.push_front(@)"],
            finds: &[],
            slots: &["c.iter_mut()"],
            named: &[],
            fixed: &[("c.iter()", "x"), ("c.front()", "x"), ("c.back()", "x")],
        }
    };
}

macro_rules! maps {
    ($ty:literal) => {
        Cont {
            ty: $ty,
            shared: &["c.get(&k())", "unsafe { c.iter() }", "unsafe { c.iter() }.next()"],
            excl: &["c.get_mut(&k())", "unsafe { c.iter_mut() }", "unsafe { c.iter_mut() }.next()"],
            muts: &["c.clear()"],
            reads: &["c.len()", "c.is_empty()", "c.contains_key(&k())"],
            puts: &[],
            finds: &["c.get(&@)", "c.get_mut(&@)"],
            slots: &["unsafe { c.iter_mut() }.map(|p| p.1)"],
            named: &[],
            fixed: &[("c.get(&k())", "x"), ("unsafe { c.iter() }", "x.0"), ("unsafe { c.iter() }", "x.1"), ("unsafe { c.iter_mut() }", "x.0")],
        }
    };
}

fn conts() -> Vec<Cont> {
    vec![
        slices!("DefaultVector<E>", [], []),
        slices!("FixedVector<E, 4, DefaultAllocator>", [], []),
        Cont {
            ty: "EString",
            shared: &["c.as_str()", "c.as_bytes()", "AsRef::<str>::as_ref(&c)", "AsRef::<[u8]>::as_ref(&c)", "&*c", "c.chars()", "c.get(0..1)"],
            excl: &["&mut *c"],
            muts: &["c.push('a')", "c.pop()", "c.insert(0, 'a')", "c.remove(0)", "c.reserve(9)", "c.assign(\"\")"],
            reads: &["c.len()", "c.is_empty()", "c.is_full()", "c.capacity()"],
            puts: &[],
            finds: &[],
            slots: &[],
            named: &[],
            fixed: &[("c.as_bytes()", "x")],
        },
        Cont {
            ty: "DefaultDeque<'static, E>",
            shared: &["c.front()", "c.back()", "c.iter()", "c.iter().next()", "c.iter().next_back()", "c.iter().into_compat()"],
            excl: &["c.front_mut()", "c.back_mut()", "c.iter_mut()", "c.iter_mut().next()", "c.iter_mut().next_back()", "c.iter_mut().into_compat_mut()", "c.iter_mut().into_compat()"],
            muts: &["c.push_back(e())", "c.push_front(e())", "c.pop_back()", "c.pop_front()", "c.remove(0)"],
            reads: &["c.len()", "c.is_empty()"],
            puts: &["c.push_back(@)", "c.push_front(@)"],
            finds: &[],
            slots: &["c.iter_mut()"],
            named: &[("eastl_rs::deque::iter::IterMut<'i, E>", "c.iter_mut()")],
            fixed: &[("c.iter()", "x"), ("c.front()", "x"), ("c.back()", "x")],
        },
        Cont {
            ty: "DefaultQueue<'static, E>",
            shared: &["c.top()", "c.iter()", "c.iter().next()", "c.iter().next_back()", "c.iter().into_compat()"],
            excl: &["c.iter_mut()", "c.iter_mut().next()", "c.iter_mut().next_back()", "c.iter_mut().into_compat_mut()"],
            muts: &["c.push(e())", "c.pop()"],
            reads: &["c.len()", "c.is_empty()"],
            puts: &["c.push(@)"],
            finds: &[],
            slots: &["c.iter_mut()"],
            named: &[("eastl_rs::deque::iter::IterMut<'i, E>", "c.iter_mut()")],
            fixed: &[("c.iter()", "x"), ("c.top()", "x")],
        },
        lists!("List<E, DefaultAllocator>"),
        lists!("FixedList<E, 4, DefaultAllocator>"),
        Cont {
            ty: "DefaultHashMap<K, E>",
            shared: &["c.get(&k())", "c.iter()", "c.iter().next()", "c.iter().into_compat()"],
            excl: &["c.get_mut(&k())", "c.iter_mut()", "c.iter_mut().next()", "c.iter_mut().into_compat_mut()", "c.iter_mut().into_compat()", "c.entry(k())", "c.entry(k()).or_insert(e())", "c.entry(k()).or_insert_with(e)", "c.entry(k()).and_modify(|_| ())"],
            muts: &["c.insert(k(), e())", "c.remove(&k())", "c.remove_entry(&k())", "c.clear()"],
            reads: &["c.len()", "c.is_empty()", "c.contains_key(&k())"],
            puts: &["c.insert(k(), @)", "c.entry(k()).or_insert(@)", "c.entry(k()).or_insert_with(|| @)"],
            finds: &["c.get(&@)", "c.get_mut(&@)"],
            slots: &["c.iter_mut().map(|p| p.1)", "c.get_mut(&k())"],
            named: &[("eastl_rs::hash_map::iter::IterMut<'i, K, E>", "c.iter_mut()")],
            fixed: &[("c.get(&k())", "x"), ("c.iter()", "x.0"), ("c.iter()", "x.1"), ("c.iter_mut()", "x.0")],
        },
        Cont {
            ty: "DefaultHashSet<Q>",
            shared: &["c.get(&k())", "c.iter()", "c.iter().next()", "c.iter().into_compat()"],
            excl: &[],
            muts: &["c.insert(k())", "c.remove(&k())", "c.clear()"],
            reads: &["c.len()", "c.is_empty()", "c.contains_key(&k())"],
            puts: &["c.insert(@)"],
            finds: &[],
            slots: &[],
            named: &[],
            fixed: &[("c.get(&k())", "x"), ("c.iter()", "x")],
        },
        Cont {
            ty: "DefaultVectorMap<K, E>",
            shared: &["c.get(&k())", "c.as_ref()", "&*c", "c.iter()", "c.first()", "&c[0]"],
            excl: &["c.get_mut(&k())", "c.entry(k())"],
            muts: &["c.insert(k(), e())", "c.remove(&k())", "c.remove_entry(&k())", "c.clear()"],
            reads: &["c.len()", "c.is_empty()", "c.contains_key(&k())", "c.capacity()"],
            puts: &["c.insert(k(), @)"],
            finds: &["c.get(&@)", "c.get_mut(&@)"],
            slots: &["c.get_mut(&k())"],
            named: &[],
            fixed: &[("c.get(&k())", "x"), ("c.iter()", "x")],
        },
        maps!("Map<K, E, DefaultAllocator>"),
        maps!("FixedMap<K, E, 4>"),
        maps!("DefaultFixedMapWithOverflow<K, E, 4, Less<K>>"),
        Cont {
            ty: "Set<E, DefaultAllocator>",
            shared: &["unsafe { c.iter() }", "unsafe { c.iter() }.next()"],
            excl: &[],
            muts: &["c.clear()"],
            reads: &["c.len()", "c.is_empty()", "c.contains_key(&e())"],
            puts: &[],
            finds: &[],
            slots: &[],
            named: &[],
            fixed: &[("unsafe { c.iter() }", "x")],
        },
    ]
}

pub struct Prog {
    text: String,
    ok: bool,
    why: &'static str,
    /// a missing trait or `unsafe` is the reason expected
    trait_: bool,
}

fn of(ty: &str, e: &str) -> String {
    // elements that borrow do not live as long as `S`
    let ty = if e == "S" { ty.to_string() } else { ty.replace("'static", "'_") };
    // the letters stand alone
    let mut out = String::new();
    let b: Vec<char> = ty.chars().collect();
    for (i, &x) in b.iter().enumerate() {
        let alone = |j: Option<&char>| !j.is_some_and(|c| c.is_alphanumeric() || *c == '_');
        if alone(if i > 0 { b.get(i - 1) } else { None }) && alone(b.get(i + 1)) && matches!(x, 'E' | 'K' | 'Q') {
            // `Q` is an element which is hashed
            out += if x == 'E' || x == 'Q' && e != "S" { e } else { "u32" };
        } else {
            out.push(x);
        }
    }
    out
}

fn programs() -> Vec<Prog> {
    let mut v = vec![];
    let mut add = |ok: bool, why: &'static str, text: String| v.push(Prog { text, ok, why, trait_: why.ends_with("without unsafe") || why.starts_with("a copy of") });
    for c in conts() {
        let ty = of(c.ty, "S");
        let call = |x: &str| of(x, "S");
        let leave = ["drop(c)", "let moved = c"];
        for l in c.shared.iter().map(|x| call(x)) {
            for m in c.muts.iter().chain(&leave) {
                add(false, "what is borrowed is used after the container changed", format!("fn p(mut c: {ty}) {{ let r = {l}; {m}; touch(&r); }}"));
                add(true, "the borrow is over", format!("fn p(mut c: {ty}) {{ {{ let r = {l}; touch(&r); }} {m}; }}"));
            }
            for x in c.excl.iter().map(|x| call(x)) {
                add(false, "a shared and an exclusive borrow", format!("fn p(mut c: {ty}) {{ let r = {l}; let q = {x}; touch(&q); touch(&r); }}"));
                add(false, "a shared and an exclusive borrow", format!("fn p(mut c: {ty}) {{ let q = {x}; let r = {l}; touch(&r); touch(&q); }}"));
            }
            for x in c.shared.iter().chain(c.reads).map(|x| call(x)) {
                add(true, "shared borrows", format!("fn p(c: {ty}) {{ let r = {l}; let q = {x}; touch(&q); touch(&r); }}"));
            }
            add(false, "what is borrowed outlives the container", format!("fn p() {{ let r; {{ let mut c: {ty} = mk(); r = {l}; }} touch(&r); }}"));
            add(false, "what is borrowed outlives the container", format!("fn p() {{ let mut c: {ty} = mk(); let r = {l}; c = mk(); touch(&r); }}"));
            add(true, "shared borrows", format!("fn p(c: &{ty}) {{ let r = {l}; touch(&r); }}"));
        }
        for l in c.excl.iter().map(|x| call(x)) {
            for m in c.muts.iter().chain(&leave) {
                add(false, "what is borrowed is used after the container changed", format!("fn p(mut c: {ty}) {{ let r = {l}; {m}; touch(&r); }}"));
                add(true, "the borrow is over", format!("fn p(mut c: {ty}) {{ {{ let r = {l}; touch(&r); }} {m}; }}"));
            }
            for x in c.excl.iter().map(|x| call(x)) {
                add(false, "two exclusive borrows", format!("fn p(mut c: {ty}) {{ let r = {l}; let q = {x}; touch(&q); touch(&r); }}"));
            }
            for x in c.reads.iter().map(|x| call(x)) {
                add(false, "a read during an exclusive borrow", format!("fn p(mut c: {ty}) {{ let r = {l}; let q = {x}; touch(&q); touch(&r); }}"));
            }
            add(false, "what is borrowed outlives the container", format!("fn p() {{ let r; {{ let mut c: {ty} = mk(); r = {l}; }} touch(&r); }}"));
            add(false, "what is borrowed outlives the container", format!("fn p() {{ let mut c: {ty} = mk(); let r = {l}; c = mk(); touch(&r); }}"));
            if !l.contains("into_compat") {
                add(false, "a copy of an exclusive borrow", format!("fn p(mut c: {ty}) {{ let q = {l}; touch(&dup(&q)); }}"));
            }
            add(false, "an exclusive borrow of a shared container", format!("fn p(c: &{ty}) {{ let r = {l}; touch(&r); }}"));
        }
        add(false, "a container is used after it was moved", format!("fn p(c: {ty}) {{ let d = c; touch(&d); touch(&c); }}"));
        for m in c.muts.iter().map(|x| call(x)) {
            add(false, "a change of a shared container", format!("fn p(c: &{ty}) {{ {m}; }}"));
            add(true, "changes", format!("fn p(mut c: {ty}) {{ {m}; {m}; }}"));
        }
        let lent = of(c.ty, "&'l str");
        let lent_any = of(c.ty, "&str");
        for p in c.puts {
            add(false, "an element dies before the container", format!("fn p() {{ let mut c: {lent_any} = mk(); {{ let s = S::new(); {}; }} touch(&c); }}", p.replace('@', "&s[..]")));
            add(true, "the elements live long enough", format!("fn p() {{ let s = S::new(); let mut c: {lent_any} = mk(); {}; touch(&c); }}", p.replace('@', "&s[..]")));
            let noisy = of(c.ty, "Noisy");
            add(false, "an element dies before the container", format!("fn p() {{ let mut c: {noisy} = mk(); let s = S::new(); {}; }}", p.replace('@', "Noisy(&s)")));
        }
        for f in c.finds {
            add(true, "a result does not borrow the key", format!("fn p() {{ let mut c: {ty} = mk(); let r; {{ let k = 1u32; r = {}; }} touch(&r); }}", f.replace('@', "k")));
            add(false, "what is borrowed outlives the container", format!("fn p() {{ let k = 1u32; let r; {{ let mut c: {ty} = mk(); r = {}; }} touch(&r); }}", f.replace('@', "k")));
        }
        for x in c.slots {
            add(false, "an element dies before the container", format!("fn p<'l>(c: &mut {lent}) {{ let s = S::new(); for x in {x} {{ *x = &s; }} }}"));
            add(true, "the elements live long enough", format!("fn p<'l>(c: &mut {lent}, s: &'l str) {{ for x in {x} {{ *x = s; }} }}"));
        }
        for (t, x) in c.named {
            add(
                false,
                "an element dies before the container",
                format!("fn p<'l>(c: &mut {lent}) {{ fn shrink<'i, 's, 'l: 's>(i: {}) -> {} {{ i }} let s = S::new(); let it = {x}; touch(&shrink(it)); }}", of(t, "&'l str"), of(t, "&'s str")),
            );
        }
        // an iterator lends each element once
        for l in c.excl.iter().filter(|l| l.ends_with("iter_mut()") || l.ends_with("iter_mut() }")) {
            add(true, "different elements", format!("fn p(mut c: {ty}) {{ let mut i = {l}; let a = i.next(); let b = i.next(); touch(&a); touch(&b); }}"));
        }
        // keys stay as they are, and so does what a shared borrow shows
        for (b, x) in c.fixed {
            add(false, "a change of what is only shown", format!("fn p(mut c: {ty}) {{ for x in {b} {{ *{x} = mk(); }} }}"));
            add(true, "a look at what is shown", format!("fn p(mut c: {ty}) {{ for x in {b} {{ touch(&*{x}); }} }}"));
        }
    }
    // what C++ hands back is taken on trust
    let compat: &[(&str, &str, &str)] = &[
        ("DefaultDeque<'static, S>", "eastl_rs::deque::iter::Iter::from_compat", "c.iter().into_compat()"),
        ("DefaultDeque<'static, S>", "eastl_rs::deque::iter::IterMut::from_compat", "c.iter_mut().into_compat_mut()"),
        ("DefaultHashMap<u32, S>", "eastl_rs::hash_map::iter::Iter::from_compat", "c.iter().into_compat()"),
        ("DefaultHashMap<u32, S>", "eastl_rs::hash_map::iter::Iter::from_compat_mut", "c.iter_mut().into_compat_mut()"),
        ("DefaultHashMap<u32, S>", "eastl_rs::hash_map::iter::IterMut::from_compat", "c.iter_mut().into_compat()"),
        ("DefaultHashSet<u32>", "eastl_rs::hash_set::iter::Iter::from_compat", "c.iter().into_compat()"),
    ];
    for (ty, from, pair) in compat {
        add(false, "C++ iterators are trusted without unsafe", format!("fn p(mut c: {ty}) {{ let (b, e) = {pair}; touch(&{from}(b, e)); }}"));
        add(true, "C++ iterators are trusted", format!("fn p(mut c: {ty}) {{ let (b, e) = {pair}; touch(&unsafe {{ {from}(b, e) }}); }}"));
    }
    // elements that must not be copied
    for (ty, ok) in [("Vector<Unique, Al>", false), ("Vector<S, Al>", true), ("Vector<Vector<Unique, Al>, Al>", false), ("ES<Al>", true)] {
        add(ok, if ok { "a copy of elements that can be" } else { "a copy of elements that cannot be" }, format!("fn p(c: {ty}) {{ touch(&dup(&c)); }}"));
    }
    // owning iterators lend what is left
    let owning: &[(bool, &str, &str)] = &[
        (false, "what is borrowed is used after the iterator went on", "let r = i.as_slice(); i.next(); touch(&r);"),
        (false, "what is borrowed is used after the iterator went on", "let r = i.as_slice_mut(); i.next_back(); touch(&r);"),
        (false, "what is borrowed outlives the iterator", "let r = i.as_slice(); drop(i); touch(&r);"),
        (false, "a shared and an exclusive borrow", "let r = i.as_slice(); let q = i.as_slice_mut(); touch(&q); touch(&r);"),
        (false, "two exclusive borrows", "let r = i.as_slice_mut(); let q = i.as_slice_mut(); touch(&q); touch(&r);"),
        (false, "a container is used after it was moved", "touch(&i); touch(&c);"),
        (false, "a copy of an owning iterator", "touch(&dup(&i));"),
        (true, "the borrow is over", "touch(&i.as_slice()); let x = i.next(); touch(&i.as_slice_mut()); drop(i); touch(&x);"),
    ];
    for (ok, why, body) in owning {
        add(*ok, why, format!("fn p(c: DefaultVector<Unique>) {{ let mut i = c.into_iter(); {body} }}"));
    }
    // entries of a vector map lend in their turn
    let parts: &[(bool, &str, &str, &str)] = &[
        (false, "what is borrowed outlives the entry", "Occupied(mut o)", "let r = o.get_mut(); drop(o); touch(&r);"),
        (false, "what is borrowed outlives the entry", "Occupied(mut o)", "let r = o.get(); drop(o); touch(&r);"),
        (false, "what is borrowed outlives the entry", "Occupied(mut o)", "let r = o.key(); drop(o); touch(&r);"),
        (false, "a shared and an exclusive borrow", "Occupied(mut o)", "let r = o.get(); let q = o.get_mut(); touch(&q); touch(&r);"),
        (false, "a shared and an exclusive borrow", "Occupied(mut o)", "let q = o.get_mut(); let r = o.get(); touch(&r); touch(&q);"),
        (false, "a shared and an exclusive borrow", "Occupied(mut o)", "let q = o.get_mut(); let r = o.key(); touch(&r); touch(&q);"),
        (false, "two exclusive borrows", "Occupied(mut o)", "let q = o.get_mut(); let r = o.get_mut(); touch(&r); touch(&q);"),
        (false, "a change of what is only shown", "Occupied(mut o)", "*o.get() = e();"),
        (false, "a change of what is only shown", "Occupied(mut o)", "*o.key() = k();"),
        (true, "shared borrows", "Occupied(mut o)", "let r = o.get(); let q = o.key(); touch(&q); touch(&r);"),
        (true, "changes", "Occupied(mut o)", "*o.get_mut() = e(); touch(o.get()); c.clear();"),
        (false, "what is borrowed is used after the container changed", "Occupied(mut o)", "c.clear(); touch(o.get());"),
        (false, "what is borrowed is used after the container changed", "Occupied(mut o)", "let r = o.get(); c.clear(); touch(&r);"),
        (false, "what is borrowed outlives the entry", "Vacant(v)", "let r = v.key(); let q = v.insert(e()); touch(&q); touch(&r);"),
        (false, "what is borrowed is used after the container changed", "Vacant(v)", "let r = v.insert(e()); c.clear(); touch(&r);"),
        (false, "what is borrowed is used after the container changed", "Vacant(v)", "c.clear(); v.insert(e());"),
        (false, "an entry is used twice", "Vacant(v)", "v.insert(e()); v.insert(e());"),
        (false, "an entry is used twice", "Vacant(v)", "v.into_key(); v.insert(e());"),
        (false, "a change of what is only shown", "Vacant(v)", "*v.key() = k();"),
        (true, "the borrow is over", "Vacant(v)", "let r = v.insert(e()); touch(&r); c.clear();"),
        (true, "the borrow is over", "Vacant(v)", "let r = v.into_key(); c.clear(); touch(&r);"),
    ];
    for (ok, why, pat, body) in parts {
        add(*ok, why, format!("fn p(mut c: DefaultVectorMap<u32, S>) {{ if let vector_map::Entry::{pat} = c.entry(k()) {{ {body} }} }}"));
    }
    v
}

const HEAD: &str = "#![allow(warnings)]
use eastl_rs::{*, fixed_vector::FixedVector};
use eastl_rs::string::String as ES;
type EString = ES<DefaultAllocator>;
type S = std::string::String;
fn touch<T: ?Sized>(_: &T) {}
fn mk<T>() -> T { loop {} }
fn dup<T: Clone>(t: &T) -> T { t.clone() }
struct Unique;
#[derive(Clone)]
struct Al;
unsafe impl Allocator for Al {
    fn allocate_raw_aligned(&mut self, _: usize, _: usize) -> *mut () { loop {} }
    unsafe fn deallocate_raw_aligned(&mut self, _: *mut (), _: usize, _: usize) {}
}
fn e() -> S { S::new() }
fn k() -> u32 { 1 }
#[derive(PartialEq, PartialOrd, Debug)]
struct Noisy<'s>(&'s str);
impl<'s> Drop for Noisy<'s> { fn drop(&mut self) { touch(self.0) } }
impl<'s> eastl_rs::hash::Hash<Noisy<'s>> for eastl_rs::hash::DefaultHash<Noisy<'s>> { fn hash(_: &Noisy<'s>) -> usize { 1 } }
";

/// The library as it was built for this program.
fn library() -> Option<(String, String)> {
    let exe = std::env::current_exe().ok()?;
    // .../target/release/mc
    let dir = exe.parent()?;
    let target = dir.parent()?;
    let root = target.parent()?;
    let hooks = cfg!(feature = "hooks");
    let mut c = Command::new("cargo");
    c.current_dir(root).args(["build", "--release", "--offline", "--message-format=json", "--target-dir"]).arg(target);
    if hooks {
        c.args(["--features", "hooks"]);
    }
    c.env("RUSTUP_TOOLCHAIN", "stable").env("RUSTFLAGS", if hooks { "--cfg eastl_rs_verif" } else { "" });
    let out = c.output().ok()?;
    let text = String::from_utf8_lossy(&out.stdout).to_string();
    let line = text.lines().find(|l| l.contains("compiler-artifact") && l.contains("libeastl_rs"))?;
    let at = line.find("libeastl_rs")?;
    let from = line[..at].rfind('"')? + 1;
    let to = from + line[from..].find('"')?;
    let rlib = line[from..to].replace(".rmeta", ".rlib");
    Some((rlib, dir.join("deps").to_string_lossy().to_string()))
}

/// Which of the programs the compiler rejects; `Err`: which it cannot judge, as they misuse a type.
fn judge(progs: &[(usize, &Prog)], lib: &(String, String), dir: &std::path::Path) -> Result<Vec<usize>, (Vec<usize>, Vec<usize>)> {
    let mut text = String::from(HEAD);
    let first = text.lines().count() + 1;
    for (i, p) in progs {
        text += &p.text.replacen("fn p", &format!("fn p{i}"), 1);
        text.push('\n');
    }
    let src = dir.join("programs.rs");
    std::fs::write(&src, text).unwrap();
    let out = Command::new("rustc")
        .env("RUSTUP_TOOLCHAIN", "stable")
        .args(["--edition", "2021", "--crate-type", "lib", "--crate-name", "programs", "--emit=metadata", "--error-format=short", "--out-dir"])
        .arg(dir)
        .arg(format!("--extern=eastl_rs={}", lib.0))
        .arg(format!("-Ldependency={}", lib.1))
        .arg(&src)
        .output()
        .expect("rustc runs");
    const BORROW: &[&str] = &["E0373", "E0381", "E0382", "E0499", "E0502", "E0503", "E0505", "E0506", "E0507", "E0510", "E0515", "E0521", "E0594", "E0596", "E0597", "E0621", "E0626", "E0712", "E0713", "E0716", "E0803"];
    let (mut rejected, mut refused, mut unfit) = (vec![], vec![], vec![]);
    let mut all = String::from_utf8_lossy(&out.stderr).to_string();
    all += &String::from_utf8_lossy(&out.stdout);
    for l in all.lines() {
        let Some(at) = l.find("programs.rs:") else { continue };
        let Some(line) = l[at + 12..].split(':').next().and_then(|n| n.parse::<usize>().ok()) else { continue };
        if !l.contains(" error") {
            continue;
        }
        if line < first {
            panic!("the programs' common part does not compile: {l}");
        }
        let i = progs[line - first].0;
        let code = l.find("error[").map(|a| &l[a + 6..a + 11]);
        if code.is_none_or(|c| BORROW.contains(&c)) {
            rejected.push(i);
        } else if progs[line - first].1.trait_ && matches!(code, Some("E0133" | "E0277" | "E0599")) {
            // no borrows are looked at until these are gone
            refused.push(i);
        } else {
            if std::env::var("MC_VERBOSE").is_ok() {
                eprintln!("left out: {l}: {}", progs[line - first].1.text);
            }
            unfit.push(i);
        }
    }
    if !unfit.is_empty() || !refused.is_empty() {
        return Err((refused, unfit));
    }
    if rejected.is_empty() && !out.status.success() {
        panic!("the programs cannot be compiled: {}", all.lines().take(5).collect::<Vec<_>>().join("; "));
    }
    rejected.sort();
    rejected.dedup();
    Ok(rejected)
}

pub fn borrows(_: u64, _: u64) -> u64 {
    let lib = library().expect("the library was built");
    let dir = std::env::temp_dir().join(format!("mc-borrow-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let progs = programs();
    let mut left: Vec<(usize, &Prog)> = progs.iter().enumerate().collect();
    let mut refused = vec![];
    let mut verdict = loop {
        match judge(&left, &lib, &dir) {
            Ok(r) => break r,
            Err((r, unfit)) => {
                left.retain(|(i, _)| !unfit.contains(i) && !r.contains(i));
                refused.extend(r);
            }
        }
    };
    verdict.extend(&refused);
    verdict.sort();
    verdict.dedup();
    left.extend(progs.iter().enumerate().filter(|(i, _)| refused.contains(i)));
    let _ = std::fs::remove_dir_all(&dir);
    for (i, p) in &left {
        let rejected = verdict.binary_search(i).is_ok();
        if p.ok == rejected && std::env::var("MC_VERBOSE").is_ok() {
            eprintln!("{}: {}", p.why, p.text);
        }
    }
    for (i, p) in &left {
        let rejected = verdict.binary_search(i).is_ok();
        check!(p.ok != rejected, Borrow, "{}, but the compiler {} `{}`", p.why, if rejected { "rejects" } else { "accepts" }, p.text);
    }
    if std::env::var("MC_VERBOSE").is_ok() {
        eprintln!("{} programs, {} judged, {} rejected", progs.len(), left.len(), verdict.len());
    }
    left.len() as u64
}
