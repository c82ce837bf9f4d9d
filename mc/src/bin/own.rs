//! P12: every element is owned exactly once and released exactly once, memory is returned exactly as taken.
//! P13: a panic in user code never leads to a double release, a use after release or a heap error.
use engine::alloc_track as heap;
use engine::*;
use mc::env::*;
use mc::{rworld as rw, tworld as tw};
use rubymap::{RubyMap, RubySet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use tw::Which;

#[global_allocator]
static A: heap::Tracking = heap::Tracking;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Sys {
    Ruby,
    Raw(Which),
}
const SYSTEMS: [Sys; 4] = [Sys::Ruby, Sys::Raw(Which::Table), Sys::Raw(Which::Map), Sys::Raw(Which::Set)];

#[derive(Clone, Copy, PartialEq, Debug)]
enum Op {
    R(rw::Op),
    T(tw::Op),
}
enum W<P: Payload> {
    R(rw::World<P>),
    T(tw::World<P>),
}
impl<P: Payload> W<P> {
    fn new(s: Sys, p: usize) -> Self {
        match s {
            Sys::Ruby => W::R(rw::World::new(p)),
            Sys::Raw(w) => W::T(tw::World::new(w, p)),
        }
    }
    fn build(&mut self, n: usize, kind: usize) -> Result<(), String> {
        match self {
            W::R(w) => rw::build(w, n, kind),
            W::T(w) => tw::build(w, n, kind),
        }
    }
    fn apply(&mut self, op: Op) -> Result<bool, String> {
        match (self, op) {
            (W::R(w), Op::R(o)) => w.apply(o),
            (W::T(w), Op::T(o)) => w.apply(o),
            _ => unreachable!(),
        }
    }
    fn step(&mut self, op: Op) -> Result<bool, Fault> {
        match (self, op) {
            (W::R(w), Op::R(o)) => w.step(o),
            (W::T(w), Op::T(o)) => w.step(o),
            _ => unreachable!(),
        }
    }
    fn exec(&mut self) -> &mut Exec {
        match self {
            W::R(w) => &mut w.e,
            W::T(w) => &mut w.e,
        }
    }
    fn len(&self) -> usize {
        match self {
            W::R(w) => w.map.len(),
            W::T(w) => w.len(),
        }
    }
    fn per(&self) -> usize {
        match self {
            W::T(w) if w.which == Which::Set => 1,
            _ => 2,
        }
    }
    /// Look at every element once; none may have been released already.
    fn look(&self) -> Result<(), String> {
        let mut left = self.len();
        let mut bad = |ok: bool| {
            if left == 0 {
                return Err("the container shows more elements than it says it has".to_string());
            }
            left -= 1;
            if ok {
                Ok(())
            } else {
                Err("the container shows an element that was already released or that it never held".to_string())
            }
        };
        match self {
            W::R(w) => w.map.iter().try_for_each(|(k, v)| bad(k.p.check() && v.p.check() && (k.id as usize) < UNIVERSE)),
            W::T(w) => match &w.c {
                tw::Cont::T(t) => t.iter().try_for_each(|x| bad(x.0.p.check() && x.1.p.check() && (x.0.id as usize) < UNIVERSE)),
                tw::Cont::M(t) => t.iter().try_for_each(|x| bad(x.0.p.check() && x.1.p.check() && (x.0.id as usize) < UNIVERSE)),
                tw::Cont::S(t) => t.iter().try_for_each(|x| bad(x.p.check() && (x.id as usize) < UNIVERSE)),
            },
        }?;
        if left > 0 {
            return Err(format!("the container says it has {} elements but shows {left} fewer", self.len()));
        }
        Ok(())
    }
    /// Use the container in every way; later panics of the container itself are safe and tolerated.
    fn exercise(&mut self) -> Result<(), String> {
        let ops: Vec<Op> = match self {
            W::R(_) => {
                use rw::*;
                [rw::Op::Get(Key::First), rw::Op::Get(Key::Last), rw::Op::Insert(Key::New), rw::Op::Clone, rw::Op::ShiftRemoveIndex(Pos::Zero), rw::Op::SwapRemove(Key::Mid), rw::Op::ShrinkToFit, rw::Op::Reserve(40), rw::Op::Pop, rw::Op::Retain(Pred::Even), rw::Op::Rebuild]
                    .into_iter()
                    .map(crate::Op::R)
                    .collect()
            }
            W::T(_) => {
                use tw::*;
                [tw::Op::Get(Key::First), tw::Op::Get(Key::Last), tw::Op::Insert(Key::New), tw::Op::Clone, tw::Op::Remove(Key::First), tw::Op::ShrinkToFit, tw::Op::Reserve(40), tw::Op::Retain(1), tw::Op::Rebuild(0)].into_iter().map(crate::Op::T).collect()
            }
        };
        self.look()?;
        // fill a probing table to the capacity it reports: looking for an absent key must still end
        if let W::T(w) = self {
            for _ in 0..70 {
                if w.len() >= w.capacity() {
                    break;
                }
                if catch_unwind(AssertUnwindSafe(|| w.step(tw::Op::Insert(tw::Key::New)))).is_err() {
                    return Err(format!("inserting within the reported capacity {} panicked with {} elements: {}", w.capacity(), w.len(), last_panic()));
                }
            }
            if catch_unwind(AssertUnwindSafe(|| w.step(tw::Op::Get(tw::Key::Gone)))).is_err() {
                return Err(format!("looking up a key panicked: {}", last_panic()));
            }
            self.look()?;
        }
        for op in ops {
            let _ = catch_unwind(AssertUnwindSafe(|| self.step(op)));
            self.look()?;
            if let Some(e) = tok::error() {
                return Err(format!("{e} (in {op:?})"));
            }
        }
        Ok(())
    }
}

fn ops_of(s: Sys, core: bool) -> Vec<Op> {
    match s {
        Sys::Ruby if core => {
            use rw::*;
            use rw::Op::*;
            vec![
                Nop, Insert(Key::New), Insert(Key::Mid), SwapRemove(Key::First), ShiftRemove(Key::Mid), Drain(Ran::Inner), SplitOffKeepTail(Pos::Mid), Retain(Pred::Even), TombTwo(Key::First, Pos::Last), SortKeys, Clone, CloneFromOther(1),
                EntryOccInsert(Key::Last), Append, ShrinkToFit, Reserve(40), Clear,
            ]
            .into_iter()
            .map(crate::Op::R)
            .collect()
        }
        Sys::Ruby => rw::alphabet("lookup insert fast remove bulk tomb order storage entry idxentry").into_iter().map(Op::R).collect(),
        Sys::Raw(w) if core => tw::core_alphabet(w).into_iter().map(Op::T).collect(),
        Sys::Raw(w) => tw::alphabet(w).into_iter().map(Op::T).collect(),
    }
}
fn nkinds(s: Sys) -> usize {
    match s {
        Sys::Ruby => rw::NKINDS,
        _ => tw::NKINDS,
    }
}

/// Heap blocks held by the trace of a case being replayed.
static TRACED: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
fn traced(f: impl FnOnce()) {
    let a = heap::live_blocks();
    f();
    TRACED.fetch_add(heap::live_blocks() - a, std::sync::atomic::Ordering::Relaxed);
}
fn begin() -> usize {
    use std::sync::Once;
    static WARM: Once = Once::new();
    WARM.call_once(|| {
        drop(Exec::new(0));
        let _ = catch_unwind(|| panic!("warm up"));
    });
    TRACED.store(0, std::sync::atomic::Ordering::Relaxed);
    tok::reset();
    tok::with(|t| t.live.reserve(20_000));
    let _ = heap::take_error();
    panic_in_user_code(0);
    heap::live_blocks()
}
fn clean(what: &str) -> Result<(), String> {
    if let Some(e) = tok::error() {
        return Err(format!("{what}: {e}"));
    }
    if let Some(e) = heap::take_error() {
        return Err(format!("{what}: {e}"));
    }
    Ok(())
}
fn owned<P: Payload>(w: &W<P>, what: &str) -> Result<(), String> {
    clean(what)?;
    let (have, want) = (tok::live(), w.len() * w.per());
    if have != want {
        return Err(format!("{what}: {have} elements are alive, the container holds {want}"));
    }
    Ok(())
}
fn end(blocks: usize, what: &str) -> Result<(), String> {
    clean(what)?;
    if tok::live() != 0 {
        return Err(format!("{what}: {} elements were never released", tok::live()));
    }
    let now = heap::live_blocks() - TRACED.load(std::sync::atomic::Ordering::Relaxed);
    if now != blocks {
        return Err(format!("{what}: {} heap blocks were not returned", now as i64 - blocks as i64));
    }
    Ok(())
}

fn sequences(s: Sys, depth: usize, core: bool, ns: Vec<usize>, kinds: Vec<usize>, profiles: Vec<usize>) -> Space<'static> {
    let ops = ops_of(s, core);
    let count = (ops.len() as u64).pow(depth as u32) * (ns.len() * kinds.len() * profiles.len()) as u64;
    Space::new(
        format!("{s:?} sequences of {depth}"),
        format!("all sequences of {depth} out of {} operations from sizes {ns:?}, {} histories, {} hash profiles; ownership and heap balance checked after every operation and at the end", ops.len(), kinds.len(), profiles.len()),
        count,
        move |i, ctx| {
            let mut r = Radix(i);
            let seq: Vec<Op> = (0..depth).map(|_| ops[r.take(ops.len())]).collect();
            let n = ns[r.take(ns.len())];
            let kind = kinds[r.take(kinds.len())];
            let p = profiles[r.take(profiles.len())];
            ctx.note(|| format!("start: {n} entries, history {kind}, hashes: {}", profile_name(p)));
            let blocks = begin();
            let mut w: W<Tok> = W::new(s, p);
            w.build(n, kind)?;
            owned(&w, "start state")?;
            for op in &seq {
                w.apply(*op)?;
                traced(|| ctx.step(|| format!("{op:?}")));
                owned(&w, &format!("after {op:?}"))?;
            }
            w.look()?;
            drop(w);
            end(blocks, "after the container was dropped")?;
            ctx.execution();
            Ok(())
        },
    )
}

fn faults(s: Sys, ns: Vec<usize>, kinds: Vec<usize>, profiles: Vec<usize>) -> Space<'static> {
    let ops = ops_of(s, false);
    let count = (ops.len() * ns.len() * kinds.len() * profiles.len()) as u64;
    Space::new(
        format!("{s:?} failing callbacks"),
        format!("each of {} operations from sizes {ns:?}, {} histories, {} profiles, once per callback with that callback failing; ownership and heap balance checked", ops.len(), kinds.len(), profiles.len()),
        count,
        move |i, ctx| {
            let mut r = Radix(i);
            let op = ops[r.take(ops.len())];
            let n = ns[r.take(ns.len())];
            let kind = kinds[r.take(kinds.len())];
            let p = profiles[r.take(profiles.len())];
            let mut at = 1;
            loop {
                ctx.trace.clear();
                ctx.note(|| format!("start: {n} entries, history {kind}, hashes: {}; {op:?} with callback {at} failing", profile_name(p)));
                let blocks = begin();
                let mut w: W<Tok> = W::new(s, p);
                w.build(n, kind)?;
                w.exec().calls = 0;
                w.exec().fail_at = at;
                let _ = w.step(op);
                let reached = w.exec().calls >= at;
                w.exec().fail_at = 0;
                traced(|| ctx.step(|| format!("{op:?}")));
                owned(&w, &format!("after {op:?} failed"))?;
                w.look()?;
                drop(w);
                end(blocks, "after the container was dropped")?;
                ctx.execution();
                if !reached {
                    return Ok(());
                }
                at += 1;
            }
        },
    )
}

const KINDS_OF_CONSUMPTION: usize = 15;
/// Owning iterators and drains, consumed partly from both ends, then dropped, finished or forgotten.
fn consume(max: usize) -> Space<'static> {
    let ns: Vec<usize> = [0, 1, 2, 3, 7, 8, 9, 15, 17].into_iter().filter(|n| *n <= max).collect();
    let kinds = [0usize, 2, 4];
    let count = (KINDS_OF_CONSUMPTION * ns.len() * kinds.len() * 6 * 6 * 3) as u64;
    Space::new(
        "owning iterators",
        format!("{KINDS_OF_CONSUMPTION} kinds of owning iterators and drains over containers of {ns:?} elements: 0-5 steps from the front and from the back, then dropped, run to the end or forgotten; elements and heap blocks counted"),
        count,
        move |i, ctx| {
            let mut r = Radix(i);
            let what = r.take(KINDS_OF_CONSUMPTION);
            let n = ns[r.take(ns.len())];
            let kind = kinds[r.take(kinds.len())];
            let (f, b) = (r.take(6), r.take(6));
            let fin = r.take(3);
            ctx.note(|| format!("iterator kind {what} over {n} elements (history {kind}): {f} from the front, {b} from the back, then {}", ["dropped", "finished", "forgotten"][fin]));
            let blocks = begin();
            fn go<I: DoubleEndedIterator>(mut it: I, f: usize, b: usize, fin: usize) {
                for _ in 0..f {
                    it.next();
                }
                for _ in 0..b {
                    it.next_back();
                }
                match fin {
                    0 => drop(it),
                    1 => it.for_each(drop),
                    _ => std::mem::forget(it),
                }
            }
            fn go1<I: Iterator>(mut it: I, f: usize, fin: usize) {
                for _ in 0..f {
                    it.next();
                }
                match fin {
                    0 => drop(it),
                    1 => it.for_each(drop),
                    _ => std::mem::forget(it),
                }
            }
            // after an iterator was forgotten its elements may be leaked, but nothing may be released twice
            let mut keep_exact = fin != 2;
            match what {
                0..=6 => {
                    let mut w: rw::World<Tok> = rw::World::new(0);
                    rw::build(&mut w, n, kind)?;
                    let map = std::mem::replace(&mut w.map, RubyMap::with_hasher(Ident));
                    match what {
                        0 => go(map.into_iter(), f, b, fin),
                        1 => go(map.into_keys(), f, b, fin),
                        2 => go(map.into_values(), f, b, fin),
                        3 => go(map.into_boxed_slice().into_iter(), f, b, fin),
                        4 => go(map.sorted_by(|a, _, b, _| b.id.cmp(&a.id)), f, b, fin),
                        5 => go(map.into_boxed_slice().clone().into_keys(), f, b, fin),
                        _ => {
                            w.map = map;
                            let (lo, hi) = (n / 4, n - n / 4);
                            let d = w.map.drain(lo..hi, &mut w.e, &mut w.g).map_err(|f| format!("{f:?}"))?;
                            go(d, f, b, fin);
                            if fin != 2 {
                                let a = W::R(w);
                                owned(&a, "after draining")?;
                                let W::R(x) = a else { unreachable!() };
                                w = x;
                            } else {
                                let mut a = W::R(w);
                                a.exercise()?;
                                let W::R(x) = a else { unreachable!() };
                                w = x;
                            }
                        }
                    }
                    drop(w);
                }
                7 | 8 => {
                    let (mut e, mut g) = (Exec::new(0), Glob::default());
                    let mut s: RubySet<K<Tok>, Exec, Glob, Fault, Ident> = RubySet::with_hasher(Ident);
                    for i in 0..n {
                        s.insert(K::new(i as u16, 0), &mut e, &mut g).map_err(|f| format!("{f:?}"))?;
                    }
                    if what == 7 {
                        go(s.into_iter(), f, b, fin);
                    } else {
                        let d = s.drain(n / 3.., &mut e, &mut g).map_err(|f| format!("{f:?}"))?;
                        go(d, f, b, fin);
                        let _ = catch_unwind(AssertUnwindSafe(|| s.insert(K::new(300, 0), &mut e, &mut g).map(|_| ())));
                        if s.iter().any(|k| !k.p.check()) {
                            return Err("the set shows an element that was already released".into());
                        }
                    }
                }
                _ => {
                    let which = [Which::Table, Which::Map, Which::Set][what % 3];
                    let mut w: tw::World<Tok> = tw::World::new(which, 0);
                    tw::build(&mut w, n, kind)?;
                    let c = std::mem::replace(&mut w.c, tw::World::empty(which, 0, 0));
                    if what < 12 {
                        match c {
                            tw::Cont::T(t) => go1(t.into_iter(), f, fin),
                            tw::Cont::M(m) if b == 1 => go1(m.into_keys(), f, fin),
                            tw::Cont::M(m) if b == 2 => go1(m.into_values(), f, fin),
                            tw::Cont::M(m) => go1(m.into_iter(), f, fin),
                            tw::Cont::S(s) => go1(s.into_iter(), f, fin),
                        }
                    } else {
                        w.c = c;
                        match &mut w.c {
                            tw::Cont::T(t) if b == 0 => go1(t.drain(), f, fin),
                            tw::Cont::M(t) if b == 0 => go1(t.drain(), f, fin),
                            tw::Cont::S(t) if b == 0 => go1(t.drain(), f, fin),
                            tw::Cont::T(t) => {
                                keep_exact = true;
                                go1(t.extract_if(|x| x.0.id as usize % b == 0), f, fin)
                            }
                            tw::Cont::M(t) => {
                                keep_exact = true;
                                go1(t.extract_if(|x, _| x.id as usize % b == 0), f, fin)
                            }
                            tw::Cont::S(t) => {
                                keep_exact = true;
                                go1(t.extract_if(|x| x.id as usize % b == 0), f, fin)
                            }
                        }
                        let mut a = W::T(w);
                        if keep_exact {
                            owned(&a, "after draining")?;
                        }
                        a.exercise()?;
                        drop(a);
                    }
                }
            }
            if keep_exact {
                end(blocks, "at the end")?;
            } else {
                clean("at the end")?;
            }
            ctx.step(|| "done".into());
            ctx.execution();
            Ok(())
        },
    )
}

/// Panic at every occasion of user code: comparisons, hashing, closures (mode 0), copying (1), releasing (2).
fn panics<P: Payload>(s: Sys, mode: usize, pre_ops: bool, ns: Vec<usize>, kinds: Vec<usize>, profiles: Vec<usize>) -> Space<'static> {
    let ops = ops_of(s, false);
    let pres = if pre_ops { ops_of(s, true) } else { vec![ops[0]] };
    let count = (ops.len() * pres.len() * ns.len() * kinds.len() * profiles.len()) as u64;
    let mode_name = ["user code (hash, eql?, ordering, closures)", "copying of an element", "release of an element"][mode];
    Space::new(
        format!("{s:?} panics, mode {mode}{}{}", if P::TRACKED { "" } else { ", plain elements" }, if pre_ops { ", after another operation" } else { "" }),
        format!("each of {} operations after {} prefixes from sizes {ns:?}, {} histories, {} profiles, once per occasion of {mode_name} with a panic there; then the container is used on and dropped", ops.len(), pres.len(), kinds.len(), profiles.len()),
        count,
        move |i, ctx| {
            let mut r = Radix(i);
            let op = ops[r.take(ops.len())];
            let pre = pres[r.take(pres.len())];
            let n = ns[r.take(ns.len())];
            let kind = kinds[r.take(kinds.len())];
            let p = profiles[r.take(profiles.len())];
            let mut at = 1;
            loop {
                ctx.trace.clear();
                ctx.note(|| format!("start: {n} entries, history {kind}, hashes: {}, after {pre:?}; {op:?} with a panic at {mode_name} {at}", profile_name(p)));
                begin();
                let mut w: W<P> = W::new(s, p);
                w.build(n, kind)?;
                w.apply(pre)?;
                match mode {
                    0 => panic_in_user_code(at),
                    1 => tok::with(|t| (t.clones, t.panic_on_clone) = (0, at as u32)),
                    _ => tok::with(|t| (t.drops, t.panic_on_drop) = (0, at as u32)),
                }
                let res = catch_unwind(AssertUnwindSafe(|| w.step(op).is_ok()));
                let reached = match mode {
                    0 => user_code_count(),
                    1 => tok::with(|t| t.clones as u64),
                    _ => tok::with(|t| t.drops as u64),
                } >= at;
                panic_in_user_code(0);
                tok::with(|t| (t.panic_on_clone, t.panic_on_drop) = (0, 0));
                ctx.step(|| format!("{op:?} -> {}", if res.is_ok() { "returned" } else { "panicked" }));
                if !reached {
                    return Ok(());
                }
                clean("after the panic")?;
                w.exercise()?;
                if catch_unwind(AssertUnwindSafe(|| drop(w))).is_err() {
                    return Err(format!("dropping the container panicked: {}", last_panic()));
                }
                clean("after the container was dropped")?;
                ctx.execution();
                at += 1;
            }
        },
    )
}

fn main() {
    let prop = property_from_args();
    let tier = tier_from_args();
    let th = tier == Tier::Thorough;
    let mut spaces = vec![];
    let check = if prop == "P12" {
        for s in SYSTEMS {
            let all: Vec<usize> = (0..nkinds(s)).collect();
            spaces.push(sequences(s, 1, false, (0..=if th { 40 } else { 20 }).collect(), all.clone(), (0..NPROFILES).collect()));
            spaces.push(sequences(s, 2, false, vec![3, 9, 20], if th { vec![0, 2, 4, 7] } else { vec![4] }, if th { vec![0, 1, 4] } else { vec![1] }));
            spaces.push(sequences(s, 3, true, vec![3, 9, 17], if th { all.clone() } else { vec![0, 4] }, if th { vec![0, 1, 4] } else { vec![0] }));
            spaces.push(faults(s, vec![0, 1, 3, 8, 9, 17], if th { all } else { vec![0, 4] }, vec![0, 1, 5]));
        }
        spaces.push(consume(17));
        Check {
            property: "P12",
            tier,
            rule: "at every moment exactly the elements the containers hold are alive; each element is released exactly once; every heap block is returned once, with its own size and alignment, and nothing is written outside or after it; nothing is left over when the container is gone, also when operations failed or iterators were consumed partly".into(),
            assumptions: vec!["the global allocator is the checking allocator of the harness".into()],
            spaces,
        }
    } else {
        for s in SYSTEMS {
            let all: Vec<usize> = (0..nkinds(s)).collect();
            spaces.push(panics::<()>(s, 0, false, if th { (0..=40).collect() } else { vec![0, 1, 3, 8, 9, 17, 28] }, all.clone(), if th { (0..NPROFILES).collect() } else { vec![0, 1] }));
            for mode in 0..3 {
                spaces.push(panics::<Tok>(s, mode, false, if th { (0..=40).collect() } else { vec![0, 1, 3, 8, 9, 17, 28] }, all.clone(), if th { (0..NPROFILES).collect() } else { vec![0, 1] }));
                spaces.push(panics::<Tok>(s, mode, true, vec![3, 9, 17], if th { vec![0, 2, 4, 7] } else { vec![0] }, if th { vec![0, 1, 4] } else { vec![1] }));
            }
        }
        Check {
            property: "P13",
            tier,
            rule: "whichever piece of user code panics during an operation, no element is released twice, none is shown or used after its release, the heap stays intact, and the container can be used on and dropped".into(),
            assumptions: vec!["after a panic elements may be missing or leaked; only memory safety is claimed".into()],
            spaces,
        }
    };
    check.main();
}
