//! P14: room that was asked for is there, room that cannot be had is refused, and memory stays in proportion.
use engine::alloc_track as heap;
use engine::*;
use hashbrown::{HashMap, HashSet, HashTable};
use rubymap::{RubyEql, RubyHash, RubyMap, RubySet};
use std::hash::{BuildHasher, Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[global_allocator]
static A: heap::Tracking = heap::Tracking;

/// An element: any size, identified by a number below its universe.
trait El: Clone + Hash + RubyHash<(), (), ()> + RubyEql<(), (), ()> + 'static {
    const NAME: &'static str;
    const MAX: usize;
    fn of(i: usize) -> Self;
    fn id(&self) -> usize;
}
macro_rules! plain {
    ($t:ty, $max:expr) => {
        impl El for $t {
            const NAME: &'static str = stringify!($t);
            const MAX: usize = $max;
            fn of(i: usize) -> Self {
                i as $t
            }
            fn id(&self) -> usize {
                *self as usize
            }
        }
    };
}
plain!(u8, 250);
plain!(u16, 60_000);
plain!(u32, 60_000);
plain!(u64, 60_000);
#[derive(Clone, Hash)]
struct Wide([u64; 5]);
#[derive(Clone, Hash)]
#[repr(align(64))]
struct Aligned(u16);
macro_rules! made {
    ($t:ty, $mk:expr, $id:expr) => {
        impl RubyHash<(), (), ()> for $t {
            fn ruby_hash<H: Hasher>(&self, h: &mut H, _: &mut (), _: &mut ()) -> Result<(), ()> {
                h.write_u64(self.id() as u64);
                Ok(())
            }
        }
        impl RubyEql<(), (), ()> for $t {
            fn eql(&self, o: &Self, _: &mut (), _: &mut ()) -> Result<bool, ()> {
                Ok(self.id() == o.id())
            }
        }
        impl El for $t {
            const NAME: &'static str = stringify!($t);
            const MAX: usize = 60_000;
            fn of(i: usize) -> Self {
                ($mk)(i)
            }
            fn id(&self) -> usize {
                ($id)(self)
            }
        }
    };
}
made!(Wide, |i: usize| Wide([i as u64, !i as u64, 1, 2, i as u64]), |w: &Wide| w.0[0] as usize);
made!(Aligned, |i: usize| Aligned(i as u16), |w: &Aligned| w.0 as usize);

/// Hashes: spread, all in one chain, or sequential.
#[derive(Clone, Copy, Default)]
struct Hs(u8);
struct Hsr(u8, u64);
impl Hasher for Hsr {
    fn finish(&self) -> u64 {
        hash(self.0, self.1)
    }
    fn write(&mut self, b: &[u8]) {
        for x in b.iter().rev() {
            self.1 = (self.1 << 8) | *x as u64;
        }
    }
}
impl BuildHasher for Hs {
    type Hasher = Hsr;
    fn build_hasher(&self) -> Hsr {
        Hsr(self.0, 0)
    }
}
fn hash(p: u8, x: u64) -> u64 {
    match p {
        0 => mix(x.wrapping_mul(0x9e3779b97f4a7c15) ^ 0x55),
        1 => 0x40,
        _ => x | (x << 57),
    }
}

/// What all five containers have in common.
trait Cont: Sized {
    const NAME: &'static str;
    /// room below which a request need not be answered by an own allocation
    const EXACT_BYTES: bool;
    fn new(p: u8) -> Self;
    fn with(n: usize, p: u8) -> Self;
    fn len(&self) -> usize;
    fn cap(&self) -> usize;
    fn put(&mut self, i: usize);
    fn take(&mut self, i: usize);
    fn has(&self, i: usize) -> bool;
    fn ids(&self) -> Vec<usize>;
    fn reserve(&mut self, n: usize, exact: bool);
    fn shrink(&mut self, n: Option<usize>);
    fn clear(&mut self);
    fn bytes(&self) -> usize;
    fn max() -> usize;
    fn elem() -> usize;
}
struct T<X: El>(HashTable<X, (), (), ()>, u8);
impl<X: El> Cont for T<X> {
    const NAME: &'static str = "HashTable";
    const EXACT_BYTES: bool = true;
    fn new(p: u8) -> Self {
        T(HashTable::new(), p)
    }
    fn with(n: usize, p: u8) -> Self {
        T(HashTable::with_capacity(n), p)
    }
    fn len(&self) -> usize {
        self.0.len()
    }
    fn cap(&self) -> usize {
        self.0.capacity()
    }
    fn put(&mut self, i: usize) {
        let p = self.1;
        self.0.insert_unique(hash(p, i as u64), X::of(i), |x| hash(p, x.id() as u64));
    }
    fn take(&mut self, i: usize) {
        if let Ok(Ok(o)) = self.0.find_entry(hash(self.1, i as u64), |x, _, _| Ok(x.id() == i), &mut (), &mut ()) {
            o.remove();
        }
    }
    fn has(&self, i: usize) -> bool {
        self.0.find(hash(self.1, i as u64), |x, _, _| Ok(x.id() == i), &mut (), &mut ()).unwrap().is_some()
    }
    fn ids(&self) -> Vec<usize> {
        self.0.iter().map(|x| x.id()).collect()
    }
    fn reserve(&mut self, n: usize, _: bool) {
        let p = self.1;
        self.0.reserve(n, |x| hash(p, x.id() as u64))
    }
    fn shrink(&mut self, n: Option<usize>) {
        let p = self.1;
        match n {
            Some(n) => self.0.shrink_to(n, |x| hash(p, x.id() as u64)),
            None => self.0.shrink_to_fit(|x| hash(p, x.id() as u64)),
        }
    }
    fn clear(&mut self) {
        self.0.clear()
    }
    fn bytes(&self) -> usize {
        self.0.allocation_size()
    }
    fn max() -> usize {
        X::MAX
    }
    fn elem() -> usize {
        std::mem::size_of::<X>()
    }
}
struct M<X: El>(HashMap<X, u16, (), (), (), Hs>);
struct S<X: El>(HashSet<X, (), (), (), Hs>);
struct RM<X: El>(RubyMap<X, u16, (), (), (), Hs>);
struct RS<X: El>(RubySet<X, (), (), (), Hs>);
macro_rules! common {
    ($t:ident, $in:ident, $name:expr, $exact:expr, $put:expr, $take:expr, $has:expr, $ids:expr, $rex:expr, $bytes:expr, $elem:ty) => {
        impl<X: El> Cont for $t<X> {
            const NAME: &'static str = $name;
            const EXACT_BYTES: bool = $exact;
            fn new(p: u8) -> Self {
                $t($in::with_hasher(Hs(p)))
            }
            fn with(n: usize, p: u8) -> Self {
                $t($in::with_capacity_and_hasher(n, Hs(p)))
            }
            fn len(&self) -> usize {
                self.0.len()
            }
            fn cap(&self) -> usize {
                self.0.capacity()
            }
            fn put(&mut self, i: usize) {
                ($put)(&mut self.0, i)
            }
            fn take(&mut self, i: usize) {
                ($take)(&mut self.0, i)
            }
            fn has(&self, i: usize) -> bool {
                ($has)(&self.0, i)
            }
            fn ids(&self) -> Vec<usize> {
                ($ids)(&self.0)
            }
            fn reserve(&mut self, n: usize, exact: bool) {
                ($rex)(&mut self.0, n, exact)
            }
            fn shrink(&mut self, n: Option<usize>) {
                match n {
                    Some(n) => self.0.shrink_to(n),
                    None => self.0.shrink_to_fit(),
                }
            }
            fn clear(&mut self) {
                self.0.clear()
            }
            fn bytes(&self) -> usize {
                ($bytes)(&self.0)
            }
            fn max() -> usize {
                X::MAX
            }
            fn elem() -> usize {
                std::mem::size_of::<$elem>()
            }
        }
    };
}
type MI<X> = HashMap<X, u16, (), (), (), Hs>;
type SI<X> = HashSet<X, (), (), (), Hs>;
type RMI<X> = RubyMap<X, u16, (), (), (), Hs>;
type RSI<X> = RubySet<X, (), (), (), Hs>;
common!(M, HashMap, "HashMap", true,
    |m: &mut MI<X>, i| { m.insert(X::of(i), i as u16, &mut (), &mut ()).unwrap(); },
    |m: &mut MI<X>, i| { m.remove(&X::of(i), &mut (), &mut ()).unwrap(); },
    |m: &MI<X>, i| m.get(&X::of(i), &mut (), &mut ()).unwrap().map(|v| *v) == Some(i as u16),
    |m: &MI<X>| m.iter().map(|(k, _)| k.id()).collect(),
    |m: &mut MI<X>, n, _| m.reserve(n),
    |m: &MI<X>| m.allocation_size(), (X, u16));
common!(S, HashSet, "HashSet", true,
    |m: &mut SI<X>, i| { m.insert(X::of(i), &mut (), &mut ()).unwrap(); },
    |m: &mut SI<X>, i| { m.remove(&X::of(i), &mut (), &mut ()).unwrap(); },
    |m: &SI<X>, i| m.contains(&X::of(i), &mut (), &mut ()).unwrap(),
    |m: &SI<X>| m.iter().map(|k| k.id()).collect(),
    |m: &mut SI<X>, n, _| m.reserve(n),
    |m: &SI<X>| m.allocation_size(), X);
common!(RM, RubyMap, "RubyMap", false,
    |m: &mut RMI<X>, i| { m.insert(X::of(i), i as u16, &mut (), &mut ()).unwrap(); },
    |m: &mut RMI<X>, i| { m.swap_remove(&X::of(i), &mut (), &mut ()).unwrap(); },
    |m: &RMI<X>, i| m.get(&X::of(i), &mut (), &mut ()).unwrap().map(|v| *v) == Some(i as u16),
    |m: &RMI<X>| m.iter().map(|(k, _)| k.id()).collect(),
    |m: &mut RMI<X>, n, exact| if exact { m.reserve_exact(n) } else { m.reserve(n) },
    |_: &RMI<X>| 0, (X, u16));
common!(RS, RubySet, "RubySet", false,
    |m: &mut RSI<X>, i| { m.insert(X::of(i), &mut (), &mut ()).unwrap(); },
    |m: &mut RSI<X>, i| { m.swap_remove(&X::of(i), &mut (), &mut ()).unwrap(); },
    |m: &RSI<X>, i| m.contains(&X::of(i), &mut (), &mut ()).unwrap(),
    |m: &RSI<X>| m.iter().map(|k| k.id()).collect(),
    |m: &mut RSI<X>, n, exact| if exact { m.reserve_exact(n) } else { m.reserve(n) },
    |_: &RSI<X>| 0, X);

/// A container with its expected contents.
struct W<C: Cont> {
    c: C,
    want: Vec<usize>,
    next: usize,
    /// heap bytes in use before the container was made
    base: usize,
}
const HISTORIES: usize = 6;
impl<C: Cont> W<C> {
    fn build(n: usize, h: usize, p: u8) -> W<C> {
        forget_panic();
        let base = heap::live_bytes();
        let mut w = W { c: if h == 5 { C::with(n, p) } else { C::new(p) }, want: Vec::new(), next: 0, base };
        // the list of expected contents is not part of the container
        let before = heap::live_bytes();
        w.want = Vec::with_capacity(1024);
        w.base += heap::live_bytes() - before;
        match h {
            // grown one by one, or made with room
            0 | 5 => w.add(n),
            // twice as many, every second one taken out again: room is locked up behind removed elements
            1 => {
                w.add((2 * n).min(C::max() / 2));
                for k in (0..w.want.len()).rev() {
                    if k % 2 == 0 && w.want.len() > n {
                        w.drop_at(k)
                    }
                }
            }
            // all taken out and filled again
            2 => {
                w.add(n + 6);
                while !w.want.is_empty() {
                    w.drop_at(0)
                }
                w.add(n);
            }
            // shrunk to fit
            3 => {
                w.add(n);
                w.c.shrink(None);
            }
            // cleared with its memory kept
            _ => {
                w.add(n + 3);
                w.c.clear();
                w.want.clear();
                w.add(n);
            }
        }
        w
    }
    fn add(&mut self, n: usize) {
        for _ in 0..n {
            let i = self.fresh();
            self.next = i + 1;
            self.c.put(i);
            self.want.push(i);
        }
    }
    /// A number not in the container.
    fn fresh(&self) -> usize {
        (self.next..).map(|i| i % C::max()).find(|i| !self.want.contains(i)).unwrap()
    }
    fn drop_at(&mut self, k: usize) {
        let i = self.want.remove(k);
        self.c.take(i);
    }
    fn check(&self, what: &str) -> CaseResult {
        let mut a = self.c.ids();
        let mut b = self.want.clone();
        a.sort();
        b.sort();
        if a != b || self.c.len() != b.len() {
            return Err(format!("{what}: the container holds {a:?} (length {}) instead of {b:?}", self.c.len()));
        }
        for i in &b {
            if !self.c.has(*i) {
                return Err(format!("{what}: element {i} is not found"));
            }
        }
        if self.c.has(self.fresh()) {
            return Err(format!("{what}: an element never put in is found"));
        }
        if self.c.cap() < self.c.len() {
            return Err(format!("{what}: capacity {} is below the length {}", self.c.cap(), self.c.len()));
        }
        drop((a, b));
        if C::EXACT_BYTES && heap::live_bytes() - self.base != self.c.bytes() {
            return Err(format!("{what}: the container reports {} bytes of memory but holds {}", self.c.bytes(), heap::live_bytes() - self.base));
        }
        if let Some(e) = heap::take_error() {
            return Err(format!("{what}: {e}"));
        }
        Ok(())
    }
    /// The trace of a replayed case is not part of the container.
    fn note(&mut self, ctx: &mut Ctx, f: impl FnOnce(&Self) -> String) {
        let before = heap::live_bytes();
        ctx.step(|| f(self));
        self.base += heap::live_bytes() - before;
    }
    /// Put in n elements: none of them may take memory.
    fn fill(&mut self, n: usize, what: &str) -> CaseResult {
        let n = n.min(C::max() - 1 - self.want.len());
        let taken = heap::taken_blocks();
        let bytes = heap::live_bytes();
        let cap = self.c.cap();
        for k in 0..n {
            let i = self.fresh();
            self.next = i + 1;
            self.c.put(i);
            if heap::taken_blocks() != taken || heap::live_bytes() != bytes {
                return Err(format!("{what}: putting in element {} of {n} took memory", k + 1));
            }
            self.want.push(i);
        }
        if self.c.cap() < cap.min(self.c.len()) {
            return Err(format!("{what}: the capacity fell from {cap} to {}", self.c.cap()));
        }
        Ok(())
    }
}

fn reserve<C: Cont>(name: &str, ns: usize, reqs: Vec<usize>) -> Space<'static> {
    Space::new(
        format!("reserve {name}"),
        format!("sizes 0..={ns}, {HISTORIES} histories, 3 hash profiles, {} requests, exact or not: the room is there, filling it takes no memory", reqs.len()),
        ((ns + 1) * HISTORIES * 3 * reqs.len() * 2) as u64,
        move |i, ctx| {
            let mut r = Radix(i);
            let n = r.take(ns + 1);
            let h = r.take(HISTORIES);
            let p = r.take(3) as u8;
            let req = reqs[r.take(reqs.len())];
            let exact = r.take(2) == 1;
            let mut w: W<C> = W::build(n, h, p);
            w.check("before the request")?;
            w.c.reserve(req, exact);
            w.note(ctx, |w| format!("{n} elements, history {h}, hashes {p}: reserve {req} -> capacity {}", w.c.cap()));
            if w.c.cap() < w.c.len() + req {
                return Err(format!("after reserving room for {req} more than {} elements the capacity is {}", w.c.len(), w.c.cap()));
            }
            w.check("after the request")?;
            w.fill(req, "after the request")?;
            w.check("after filling the room")?;
            ctx.state(mix((n * 7 + h) as u64) ^ mix(w.c.cap() as u64));
            ctx.execution();
            Ok(())
        },
    )
}
fn made<C: Cont>(name: &str, ns: usize) -> Space<'static> {
    Space::new(
        format!("made with room, {name}"),
        format!("made with room for 0..={ns}: the room is there, filling it takes no memory, a container without room holds no memory"),
        ((ns + 1) * 3) as u64,
        move |i, ctx| {
            let mut r = Radix(i);
            let n = r.take(ns + 1);
            let p = r.take(3) as u8;
            let base = heap::live_bytes();
            let c = C::with(n, p);
            if c.cap() < n {
                return Err(format!("made with room for {n} but the capacity is {}", c.cap()));
            }
            if n == 0 && heap::live_bytes() != base {
                return Err("made with room for nothing but memory was taken".into());
            }
            let before = heap::live_bytes();
            let want = Vec::with_capacity(1024);
            let mut w = W { c, want, next: 0, base: base + heap::live_bytes() - before };
            w.check("empty")?;
            w.fill(n, "made with room")?;
            w.check("filled")?;
            ctx.step(|| format!("with capacity {n} -> {}", w.c.cap()));
            ctx.state(mix(n as u64) ^ mix(w.c.cap() as u64));
            ctx.execution();
            Ok(())
        },
    )
}
fn shrink<C: Cont>(name: &str, ns: usize, mins: Vec<Option<usize>>) -> Space<'static> {
    Space::new(
        format!("shrink {name}"),
        format!("sizes 0..={ns}, {HISTORIES} histories, 3 hash profiles, after reserving 0, 9 or 70 more: {} lower bounds; enough room is kept, no more than a new container would take", mins.len()),
        ((ns + 1) * HISTORIES * 3 * mins.len() * 3) as u64,
        move |i, ctx| {
            let mut r = Radix(i);
            let n = r.take(ns + 1);
            let h = r.take(HISTORIES);
            let p = r.take(3) as u8;
            let min = mins[r.take(mins.len())];
            let extra = [0, 9, 70][r.take(3)];
            let mut w: W<C> = W::build(n, h, p);
            w.c.reserve(extra, false);
            let before = w.c.cap();
            let held = heap::live_bytes() - w.base;
            w.c.shrink(min);
            let need = min.unwrap_or(0).max(w.c.len());
            w.note(ctx, |w| format!("{n} elements, history {h}, hashes {p}, capacity {before}: shrink to {min:?} -> {}", w.c.cap()));
            if w.c.cap() < need.min(before) {
                return Err(format!("shrinking to {min:?} with {} elements left a capacity of {} (before: {before})", w.c.len(), w.c.cap()));
            }
            w.check("after shrinking")?;
            let now = heap::live_bytes() - w.base;
            if now > held {
                return Err(format!("shrinking raised the memory from {held} to {now} bytes"));
            }
            if need < 300 {
                let b = heap::live_bytes();
                let fresh = C::with(need, p);
                // a map that ever was large keeps its index, which a small new map does not have
                let index = if C::EXACT_BYTES { 0 } else { heap::live_bytes() - b + 400 };
                let room = heap::live_bytes() - b + index;
                drop(fresh);
                if now > room && now == held && held > room {
                    return Err(format!("shrinking to {min:?} with {} elements keeps {now} bytes; a new container with that room takes {room}", w.c.len()));
                }
                if now > room {
                    return Err(format!("after shrinking to {min:?} with {} elements {now} bytes are held; a new container with that room takes {room}", w.c.len()));
                }
            }
            w.fill(w.c.cap().saturating_sub(w.c.len()).min(need - w.c.len().min(need)), "after shrinking")?;
            w.add(3);
            w.check("after growing again")?;
            ctx.state(mix((n * 7 + h) as u64) ^ mix(w.c.cap() as u64));
            ctx.execution();
            Ok(())
        },
    )
}
fn huge<C: Cont>(name: &str, ns: usize) -> Space<'static> {
    let mut reqs: Vec<usize> = vec![];
    for k in 0..=(2 * ns + 20) {
        reqs.push(usize::MAX - k);
    }
    for sh in 0..7 {
        for d in 0..3 {
            reqs.push((usize::MAX >> sh) - d);
            reqs.push(((usize::MAX >> sh) + 1).wrapping_sub(d + 1) / 7 * 8);
        }
    }
    reqs.retain(|r| (*r as u128) * (C::elem() as u128) > isize::MAX as u128);
    Space::new(
        format!("impossible requests {name}"),
        format!("sizes 0..={ns}, {HISTORIES} histories, {} requests above what an address space can hold: refused by a panic, nothing changed, usable afterwards", reqs.len()),
        ((ns + 1) * HISTORIES * reqs.len() * 2) as u64,
        move |i, ctx| {
            let mut r = Radix(i);
            let n = r.take(ns + 1);
            let h = r.take(HISTORIES);
            let req = reqs[r.take(reqs.len())];
            let exact = r.take(2) == 1;
            let mut w: W<C> = W::build(n, h, 0);
            let res = catch_unwind(AssertUnwindSafe(|| w.c.reserve(req, exact)));
            w.note(ctx, |_| format!("{n} elements, history {h}: reserve {req:#x} -> {}", if res.is_ok() { "accepted" } else { "refused" }));
            if res.is_ok() {
                return Err(format!("reserving room for {req:#x} more than {} elements was accepted with capacity {:#x}", w.c.len(), w.c.cap()));
            }
            drop(res);
            forget_panic();
            w.check("after the refused request")?;
            w.c.reserve(5, exact);
            w.fill(5, "after the refused request")?;
            w.check("used on after the refused request")?;
            ctx.state(mix((n * 7 + h) as u64) ^ mix(req as u64));
            ctx.execution();
            Ok(())
        },
    )
}
/// The memory runs out while the container grows: the request panics and nothing has changed.
fn exhausted<C: Cont>(name: &str, ns: usize) -> Space<'static> {
    Space::new(
        format!("memory exhausted {name}"),
        format!("sizes 0..={ns}, {HISTORIES} histories, 3 hash profiles, growing by insertion or by a request of 1, 30 or 300 with no memory to be had: refused by a panic, nothing changed, usable afterwards"),
        ((ns + 1) * HISTORIES * 3 * 4) as u64,
        move |i, ctx| {
            let mut r = Radix(i);
            let n = r.take(ns + 1);
            let h = r.take(HISTORIES);
            let p = r.take(3) as u8;
            let how = r.take(4);
            let mut w: W<C> = W::build(n, h, p);
            let held = w.c.bytes();
            let mut refused = false;
            for _ in 0..400 {
                let i = w.fresh();
                heap::set_fail_over(held);
                let res = catch_unwind(AssertUnwindSafe(|| match how {
                    0 => w.c.put(i),
                    _ => w.c.reserve([0, 1, 30, 300][how], false),
                }));
                heap::set_fail_over(usize::MAX);
                refused = res.is_err();
                drop(res);
                forget_panic();
                if how > 0 || refused {
                    break;
                }
                w.want.push(i);
                w.next = i + 1;
            }
            if how == 0 && !refused && C::max() > 300 {
                return Err(format!("400 elements were put in {held} bytes"));
            }
            w.note(ctx, |_| format!("{n} elements, history {h}, hashes {p}, way {how} -> {}", if refused { "refused" } else { "done in the memory held" }));
            w.check("after the memory ran out")?;
            w.add(5);
            w.check("used on after the memory ran out")?;
            ctx.state(mix((n * 7 + h) as u64) ^ mix(how as u64 + 900));
            ctx.execution();
            Ok(())
        },
    )
}
/// Long churn: a container of at most m elements never takes more than a small multiple of their room.
fn churn<C: Cont>(name: &str, ms: usize, rounds: usize) -> Space<'static> {
    Space::new(
        format!("churn {name}"),
        format!("windows of 1..={ms} elements, 4 removal orders, 3 hash profiles, {rounds} replacements each: capacity stays below 8 times the window (or 64)"),
        (ms * 4 * 3) as u64,
        move |i, ctx| {
            let mut r = Radix(i);
            let m = r.take(ms) + 1;
            let order = r.take(4);
            let p = r.take(3) as u8;
            let mut w: W<C> = W::build(m, 0, p);
            for k in 0..rounds {
                let at = match order {
                    0 => 0,
                    1 => w.want.len() - 1,
                    2 => w.want.len() / 2,
                    _ => (k * 7) % w.want.len(),
                };
                w.drop_at(at);
                w.add(1);
                if w.c.cap() > (8 * (m + 1)).max(64) {
                    return Err(format!("a container of {m} elements has a capacity of {} after {k} replacements", w.c.cap()));
                }
                if k % 97 == 0 {
                    w.check("while replacing elements")?;
                    ctx.beat();
                }
            }
            w.check("after replacing elements")?;
            ctx.step(|| format!("window {m}, order {order}, hashes {p}: capacity {}", w.c.cap()));
            ctx.state(mix((m * 4 + order) as u64) ^ mix(w.c.cap() as u64));
            ctx.execution();
            Ok(())
        },
    )
}

fn all<C: Cont>(el: &str, th: bool, out: &mut Vec<Space<'static>>) {
    let name = format!("{} of {el}", C::NAME);
    let reqs = if th { (0..=128).chain([200, 224, 225]).collect() } else { (0..=30).chain([56, 57, 112, 113, 225]).collect() };
    let mins = if th { (0..=70).map(Some).chain([None, Some(112), Some(113), Some(usize::MAX), Some(usize::MAX / 8)]).collect() } else { (0..=16).map(Some).chain([None, Some(28), Some(29), Some(56), Some(57), Some(usize::MAX), Some(usize::MAX / 8)]).collect() };
    out.push(made::<C>(&name, 240));
    out.push(reserve::<C>(&name, if th { 70 } else { 60 }, reqs));
    out.push(shrink::<C>(&name, if th { 70 } else { 60 }, mins));
    out.push(huge::<C>(&name, if th { 60 } else { 33 }));
    if C::EXACT_BYTES {
        out.push(exhausted::<C>(&name, if th { 120 } else { 60 }));
    }
    out.push(churn::<C>(&name, if th { 60 } else { 40 }, if th { 10_000 } else { 1500 }));
}
fn five<X: El>(th: bool, out: &mut Vec<Space<'static>>) {
    all::<T<X>>(X::NAME, th, out);
    all::<M<X>>(X::NAME, th, out);
    all::<S<X>>(X::NAME, th, out);
    all::<RM<X>>(X::NAME, th, out);
    all::<RS<X>>(X::NAME, th, out);
}

fn main() {
    let tier = tier_from_args();
    let th = tier == Tier::Thorough;
    quiet_panics();
    let _ = catch_unwind(|| panic!("warm up"));
    let mut spaces = vec![];
    five::<u8>(th, &mut spaces);
    five::<u16>(th, &mut spaces);
    five::<u64>(th, &mut spaces);
    five::<Wide>(th, &mut spaces);
    five::<Aligned>(th, &mut spaces);
    if th {
        five::<u32>(th, &mut spaces);
    }
    Check {
        property: "P14",
        tier,
        rule: "room asked for is there and can be filled without taking memory, shrinking keeps enough room and gives the rest back, a request beyond the address space is refused with the container unchanged, reported memory is the memory held, and replacing elements for ever does not make a container grow".into(),
        assumptions: vec!["the containers are built as a release build has them, without assertions and with wrapping arithmetic".into()],
        spaces,
    }
    .main();
}
