//! The environment handed to the containers: an interpreter stand-in whose `#hash` / `#eql?` answers,
//! failures and panics are fully controlled by the explorer, and keys/values whose ownership is tracked.

use ruby_traits::{RubyEql, RubyHash, RubySymEql, RubySymHash};
use std::hash::{BuildHasher, Hash, Hasher};

pub const UNIVERSE: usize = 640;

/// The "executor" of the containers.
pub struct Exec {
    /// what `#hash` answers for a key id right now
    pub hash: Vec<u64>,
    /// two keys are eql? iff their ids have the same class
    pub class: Vec<u16>,
    /// callbacks made so far
    pub calls: u64,
    pub hash_calls: u64,
    pub eql_calls: u64,
    /// an eql? call was made on two keys whose hashes differ
    pub eql_on_different_hash: u64,
    /// fail with Fault(n) at callback n (1-based)
    pub fail_at: u64,
    /// panic at callback n
    pub panic_at: u64,
    /// hash the key had when it was stored, by tag (for the protocol check)
    pub stored: Vec<u64>,
    pub check_protocol: bool,
    pub bad_protocol: Option<String>,
}

#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub struct Fault(pub u64);

#[derive(Default, Debug)]
pub struct Glob {
    pub calls: u64,
}

impl Exec {
    pub fn new(profile: usize) -> Exec {
        Exec {
            hash: profile_table(profile),
            class: CLASSES.with(|c| c.clone()),
            calls: 0,
            hash_calls: 0,
            eql_calls: 0,
            eql_on_different_hash: 0,
            fail_at: 0,
            panic_at: 0,
            stored: vec![],
            check_protocol: false,
            bad_protocol: None,
        }
    }
    #[inline]
    fn callback(&mut self, g: &mut Glob) -> Result<(), Fault> {
        self.calls += 1;
        g.calls += 1;
        user_code();
        if self.calls == self.panic_at {
            panic!("injected panic in callback {}", self.calls);
        }
        if self.calls == self.fail_at {
            return Err(Fault(self.calls));
        }
        Ok(())
    }
}

thread_local! {
    static USER_CODE: std::cell::Cell<(u64, u64)> = const { std::cell::Cell::new((0, 0)) };
}
/// Called wherever the container runs code of its user; panics at the chosen occasion.
#[inline]
pub fn user_code() {
    USER_CODE.with(|u| {
        let (n, at) = u.get();
        u.set((n + 1, at));
        if n + 1 == at {
            panic!("injected panic in user code, occasion {at}");
        }
    })
}
/// Reset the count and choose the occasion to panic at (0: never).
pub fn panic_in_user_code(at: u64) {
    USER_CODE.with(|u| u.set((0, at)))
}
pub fn user_code_count() -> u64 {
    USER_CODE.with(|u| u.get().0)
}
thread_local! {
    static CLASSES: Vec<u16> = (0..UNIVERSE as u16).collect();
    static TABLES: Vec<Vec<u64>> = (0..NPROFILES)
        .map(|p| (0..UNIVERSE).map(|i| profile_hash(p, i as u64)).collect())
        .collect();
}
fn profile_table(p: usize) -> Vec<u64> {
    TABLES.with(|t| t[p].clone())
}

pub const NPROFILES: usize = 10;
pub fn profile_name(p: usize) -> &'static str {
    [
        "spread",
        "all equal",
        "sequential, one tag",
        "one bucket, distinct tags",
        "one bucket, one tag, different hashes",
        "equal in pairs",
        "last bucket, distinct tags",
        "stride 16, four tags",
        "few buckets near the end, one tag",
        "sequential, rotating tags",
    ][p]
}
/// Hash profiles. The table uses the low bits for the bucket and the top seven bits for the tag.
pub fn profile_hash(p: usize, i: u64) -> u64 {
    match p {
        0 => engine::mix(i.wrapping_mul(0x9e3779b97f4a7c15) ^ 0x1234_5678),
        1 => 0,
        2 => i,
        3 => (i << 57) | ((i >> 7) << 40) | 3,
        4 => (i + 1) << 30,
        5 => engine::mix((i / 2).wrapping_mul(0x9e3779b97f4a7c15)),
        6 => (i << 57) | ((i >> 7) << 40) | 0x3fff_ffff,
        7 => i * 16 | ((i & 3) << 60),
        8 => 0x3fff_fff0 | (12 + i % 4) | (i << 32),
        9 => i | (i << 57),
        _ => unreachable!(),
    }
}

/// What a key or value carries besides its identity.
pub trait Payload: Clone + 'static {
    const TRACKED: bool;
    fn fresh() -> Self;
    fn check(&self) -> bool;
}
impl Payload for () {
    const TRACKED: bool = false;
    #[inline]
    fn fresh() {}
    #[inline]
    fn check(&self) -> bool {
        true
    }
}

/// A token that must be dropped exactly once.
pub struct Tok(u32);
pub mod tok {
    use std::cell::UnsafeCell;
    pub struct Table {
        pub live: Vec<u8>,
        pub errors: u64,
        pub first_error: &'static str,
        pub panic_on_drop: u32,
        pub panic_on_clone: u32,
        pub drops: u32,
        pub clones: u32,
    }
    thread_local! {
        static T: UnsafeCell<Table> = const { UnsafeCell::new(Table { live: Vec::new(), errors: 0, first_error: "", panic_on_drop: 0, panic_on_clone: 0, drops: 0, clones: 0 }) };
    }
    #[inline]
    pub fn with<R>(f: impl FnOnce(&mut Table) -> R) -> R {
        T.with(|t| f(unsafe { &mut *t.get() }))
    }
    pub fn reset() {
        with(|t| {
            t.live.clear();
            t.errors = 0;
            t.first_error = "";
            t.panic_on_drop = 0;
            t.panic_on_clone = 0;
            t.drops = 0;
            t.clones = 0;
        })
    }
    pub fn live() -> usize {
        with(|t| t.live.iter().filter(|x| **x == 1).count())
    }
    pub fn error() -> Option<&'static str> {
        with(|t| if t.errors > 0 { Some(t.first_error) } else { None })
    }
}
impl Payload for Tok {
    const TRACKED: bool = true;
    fn fresh() -> Tok {
        tok::with(|t| {
            t.live.push(1);
            Tok(t.live.len() as u32 - 1)
        })
    }
    fn check(&self) -> bool {
        tok::with(|t| t.live.get(self.0 as usize) == Some(&1))
    }
}
impl Clone for Tok {
    fn clone(&self) -> Tok {
        let boom = tok::with(|t| {
            t.clones += 1;
            if t.live.get(self.0 as usize) != Some(&1) {
                t.errors += 1;
                t.first_error = "an element was used after it was dropped";
            }
            t.clones == t.panic_on_clone
        });
        if boom {
            panic!("injected panic in clone");
        }
        Tok::fresh()
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        let boom = tok::with(|t| {
            t.drops += 1;
            match t.live.get_mut(self.0 as usize) {
                Some(x) if *x == 1 => *x = 2,
                Some(_) => {
                    t.errors += 1;
                    t.first_error = "an element was dropped twice";
                }
                None => {
                    t.errors += 1;
                    t.first_error = "something that was never an element was dropped";
                }
            }
            t.drops == t.panic_on_drop
        });
        if boom && !std::thread::panicking() {
            panic!("injected panic in drop");
        }
    }
}

/// A key: identity `id`; `tag` tells which copy of an equal key is stored.
pub struct K<P> {
    pub id: u16,
    pub tag: u32,
    pub p: P,
}
pub struct V<P> {
    pub v: u32,
    pub p: P,
}
impl<P: Payload> K<P> {
    #[inline]
    pub fn new(id: u16, tag: u32) -> Self {
        K { id, tag, p: P::fresh() }
    }
}
impl<P: Payload> V<P> {
    #[inline]
    pub fn new(v: u32) -> Self {
        V { v, p: P::fresh() }
    }
}
impl<P: Payload> Default for V<P> {
    fn default() -> Self {
        V::new(4_000_000)
    }
}
impl<P: Payload> Clone for K<P> {
    fn clone(&self) -> Self {
        K { id: self.id, tag: self.tag, p: self.p.clone() }
    }
}
impl<P: Payload> Clone for V<P> {
    fn clone(&self) -> Self {
        V { v: self.v, p: self.p.clone() }
    }
}
impl<P> std::fmt::Debug for K<P> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "k{}", self.id)
    }
}
impl<P> std::fmt::Debug for V<P> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.v)
    }
}
impl<P> PartialEq for K<P> {
    fn eq(&self, o: &Self) -> bool {
        self.id == o.id
    }
}
impl<P> Eq for K<P> {}
impl<P> PartialOrd for K<P> {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl<P> Ord for K<P> {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        user_code();
        self.id.cmp(&o.id)
    }
}
impl<P> PartialEq for V<P> {
    fn eq(&self, o: &Self) -> bool {
        self.v == o.v
    }
}
impl<P> Eq for V<P> {}
impl<P> PartialOrd for V<P> {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.v.cmp(&o.v))
    }
}
impl<P> Ord for V<P> {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.v.cmp(&o.v)
    }
}
impl<P> Hash for K<P> {
    fn hash<H: Hasher>(&self, h: &mut H) {
        user_code();
        h.write_u64(self.id as u64)
    }
}

impl<P: Payload> RubyHash<Exec, Glob, Fault> for K<P> {
    #[inline]
    fn ruby_hash<H: Hasher>(&self, state: &mut H, e: &mut Exec, g: &mut Glob) -> Result<(), Fault> {
        e.hash_calls += 1;
        e.callback(g)?;
        state.write_u64(e.hash[self.id as usize]);
        Ok(())
    }
}
impl<P: Payload> RubyEql<Exec, Glob, Fault> for K<P> {
    #[inline]
    fn eql(&self, other: &Self, e: &mut Exec, g: &mut Glob) -> Result<bool, Fault> {
        e.eql_calls += 1;
        if P::TRACKED && !(self.p.check() && other.p.check()) {
            e.bad_protocol = Some("eql? was called on a key that is no longer alive".into());
        }
        if e.check_protocol {
            // one side is the probe (not stored: u64::MAX or stored hash), the other the stored key
            let (a, b) = (e.stored.get(self.tag as usize), e.stored.get(other.tag as usize));
            if let (Some(a), Some(b)) = (a, b) {
                if a != b {
                    e.bad_protocol = Some(format!(
                        "eql? was called for k{} and k{} although their hashes differ",
                        self.id, other.id
                    ));
                }
            }
        }
        e.callback(g)?;
        Ok(e.class[self.id as usize] == e.class[other.id as usize])
    }
}
impl<P: Payload> RubyEql<Exec, Glob, Fault> for V<P> {
    fn eql(&self, other: &Self, e: &mut Exec, g: &mut Glob) -> Result<bool, Fault> {
        e.callback(g)?;
        Ok(self.v == other.v)
    }
}

/// The symbol fast path: a plain identity that compares without calling user code.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(transparent)]
pub struct Sym(pub u16);
impl<P> std::borrow::Borrow<Sym> for K<P> {
    fn borrow(&self) -> &Sym {
        // Sym is a transparent wrapper of the id
        unsafe { &*(&self.id as *const u16 as *const Sym) }
    }
}
impl<P: Payload> From<Sym> for K<P> {
    fn from(s: Sym) -> Self {
        K::new(s.0, NEXT_TAG.with(|t| t.get()))
    }
}
impl<P: Payload> From<&K<P>> for K<P> {
    fn from(k: &K<P>) -> Self {
        K::new(k.id, k.tag)
    }
}
impl RubySymEql for Sym {
    fn eql(&self, other: &Self) -> bool {
        self.0 == other.0
    }
}

/// A hasher that returns the one word written to it, so the explorer chooses every hash bit.
#[derive(Default, Clone)]
pub struct IdentHasher(u64);
impl Hasher for IdentHasher {
    #[inline]
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = self.0.rotate_left(8) ^ *x as u64;
        }
    }
    #[inline]
    fn write_u64(&mut self, x: u64) {
        self.0 = x;
    }
}
/// For std-Hash based containers: maps the id written by `Hash for K` through a profile.
#[derive(Clone, Default)]
pub struct Ident;
impl BuildHasher for Ident {
    type Hasher = IdentHasher;
    #[inline]
    fn build_hasher(&self) -> IdentHasher {
        IdentHasher(0)
    }
}
#[derive(Clone)]
pub struct Prof(pub usize);
pub struct ProfHasher(usize, u64);
impl Hasher for ProfHasher {
    fn finish(&self) -> u64 {
        profile_hash(self.0, self.1)
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.1 = self.1.rotate_left(8) ^ *x as u64;
        }
    }
    fn write_u64(&mut self, x: u64) {
        self.1 = x;
    }
}
impl Default for Prof {
    fn default() -> Self {
        Prof(SYM_PROFILE.with(|p| p.get()))
    }
}
impl BuildHasher for Prof {
    type Hasher = ProfHasher;
    fn build_hasher(&self) -> ProfHasher {
        ProfHasher(self.0, 0)
    }
}
impl RubySymHash for Sym {
    fn ruby_hash<H: Hasher>(&self, state: &mut H) {
        state.write_u64(sym_hash(self.0))
    }
}
thread_local! {
    pub static NEXT_TAG: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
    pub static SYM_PROFILE: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}
pub fn sym_hash(id: u16) -> u64 {
    profile_hash(SYM_PROFILE.with(|p| p.get()), id as u64)
}
