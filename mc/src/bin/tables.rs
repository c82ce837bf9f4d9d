//! P09-P11: HashTable, HashMap and HashSet behave as a bag, a finite map and a finite set of elements.
use engine::*;
use hashbrown::HashTable;
use mc::env::*;
use mc::tworld::*;

fn sequences(name: &str, which: Which, ops: Vec<Op>, depth: usize, ns: Vec<usize>, kinds: Vec<usize>, profiles: Vec<usize>) -> Space<'static> {
    let starts = (ns.len() * kinds.len() * profiles.len()) as u64;
    let per = (ops.len() as u64).pow(depth as u32 - 1);
    let desc = format!(
        "all sequences of {depth} operations out of {} from every start state (sizes {ns:?}, {} histories, {} hash profiles); returned values, error status and complete contents compared after each sequence",
        ops.len(),
        kinds.len(),
        profiles.len()
    );
    Space::new(name.to_string(), desc, starts * per, move |i, ctx| {
        let mut r = Radix(i);
        let mut seq: Vec<Op> = (1..depth).map(|_| ops[r.take(ops.len())]).collect();
        let n = ns[r.take(ns.len())];
        let kind = kinds[r.take(kinds.len())];
        let p = profiles[r.take(profiles.len())];
        // sequences with fewer operations are those that start with Nop; elsewhere Nop repeats them
        if seq.iter().skip_while(|o| **o == Op::Nop).any(|o| *o == Op::Nop) {
            return Ok(());
        }
        seq.push(Op::Nop);
        for last in &ops {
            seq[depth - 1] = *last;
            if *last == Op::Nop && seq.iter().any(|o| *o != Op::Nop) {
                continue;
            }
            run_sequence::<()>(which, p, n, kind, &seq, ctx)?;
        }
        Ok(())
    })
}

/// Every subset of the entries is removed (in either order), then entries are put back.
fn holes(which: Which, ns: Vec<usize>, profiles: Vec<usize>) -> Space<'static> {
    let per: Vec<u64> = ns.iter().map(|n| 1u64 << n).collect();
    let total: u64 = per.iter().sum::<u64>() * profiles.len() as u64 * 4;
    Space::new(
        "holes",
        format!("{ns:?} entries: every subset of them is removed, oldest or newest first, then new or the removed keys are inserted; all lookups compared ({} hash profiles)", profiles.len()),
        total,
        move |i, ctx| {
            let mut r = Radix(i);
            let p = profiles[r.take(profiles.len())];
            let rev = r.take(2) == 1;
            let back = r.take(2) == 1;
            let mut x = r.0;
            let mut k = 0;
            while x >= per[k] {
                x -= per[k];
                k += 1;
            }
            let mut w: World<()> = World::new(which, p);
            build(&mut w, ns[k], 0)?;
            ctx.note(|| format!("start: {} entries, hashes: {}; removing those of bit mask {x:#x}, newest first: {rev}; then inserting {} keys", ns[k], profile_name(p), if back { "the removed" } else { "new" }));
            let mut ids: Vec<u16> = (0..ns[k]).filter(|b| x >> b & 1 == 1).map(|b| b as u16).collect();
            if rev {
                ids.reverse();
            }
            for id in &ids {
                w.gone = Some(*id);
                w.apply(Op::Remove(Key::Gone))?;
            }
            w.check_contents()?;
            for id in ids.iter().take(3) {
                if back {
                    w.gone = Some(*id);
                    w.apply(Op::Insert(Key::Gone))?;
                } else {
                    w.apply(Op::Insert(Key::New))?;
                }
                ctx.step(|| format!("inserted, {} entries", w.m.len()));
            }
            w.check_contents()?;
            ctx.state(w.fingerprint());
            ctx.execution();
            Ok(())
        },
    )
}

/// Long alternations of removals and insertions at a constant size; everything compared at every step.
fn churn(which: Which, ns: Vec<usize>, steps: usize) -> Space<'static> {
    let count = (ns.len() * NPROFILES * 6) as u64;
    Space::new(
        "churn",
        format!("sizes {ns:?}, all hash profiles, 6 removal patterns: {steps} rounds of removing and inserting an entry, complete contents compared after each round"),
        count,
        move |i, ctx| {
            let mut r = Radix(i);
            let n = ns[r.take(ns.len())];
            let p = r.take(NPROFILES);
            let pat = r.take(6);
            let mut w: World<()> = World::new(which, p);
            build(&mut w, n, 0)?;
            for s in 0..steps {
                let at = match pat {
                    0 | 3 => 0,
                    1 | 4 => n - 1,
                    2 => n / 2,
                    _ => s * 7 % n,
                } as u16;
                w.apply(Op::Remove(Key::At(at)))?;
                if pat >= 3 || w.fresh > 560 {
                    w.apply(Op::Insert(Key::Gone))?;
                } else {
                    w.apply(Op::Insert(Key::New))?;
                }
                w.check_contents().map_err(|e| format!("round {s}: {e}"))?;
                ctx.step(|| format!("round {s}: position {at}"));
                ctx.state(w.fingerprint());
            }
            ctx.execution();
            Ok(())
        },
    )
}

/// Every callback of every operation fails in turn: the same error comes back and nothing changed.
fn faults(which: Which, ops: Vec<Op>, prefix: Vec<Op>, ns: Vec<usize>, kinds: Vec<usize>, profiles: Vec<usize>) -> Space<'static> {
    let count = (ops.len() * prefix.len() * ns.len() * kinds.len() * profiles.len()) as u64;
    let desc = format!(
        "{} operations after {} prefixes from every start state (sizes {ns:?}, {} histories, {} profiles), run once per user callback with that callback failing",
        ops.len(),
        prefix.len(),
        kinds.len(),
        profiles.len()
    );
    Space::new("faults", desc, count, move |i, ctx| {
        let mut r = Radix(i);
        let op = ops[r.take(ops.len())];
        let pre = prefix[r.take(prefix.len())];
        let n = ns[r.take(ns.len())];
        let kind = kinds[r.take(kinds.len())];
        let p = profiles[r.take(profiles.len())];
        let mut at = 1;
        loop {
            let mut w: World<()> = World::new(which, p);
            build(&mut w, n, kind)?;
            w.apply(pre)?;
            ctx.trace.clear();
            ctx.note(|| format!("start: {n} entries, {}, hashes: {}, after {pre:?}; {op:?} with its callback {at} failing", kind_name(kind), profile_name(p)));
            w.real.clear();
            w.exp.clear();
            w.e.calls = 0;
            w.e.fail_at = at;
            let before = w.m.clone();
            let res = w.step(op);
            let reached = w.e.calls >= at;
            w.e.fail_at = 0;
            ctx.step(|| format!("{op:?} -> {res:?}"));
            if !reached {
                return Ok(());
            }
            match res {
                Err(f) if f == Fault(at) => {}
                Err(f) => return Err(format!("{op:?}: callback {at} failed but {f:?} was reported")),
                Ok(_) => return Err(format!("{op:?}: callback {at} failed but the operation reported success")),
            }
            if keyed(&op) {
                w.m = before;
                w.check_contents().map_err(|e| format!("{op:?} failed in callback {at} and left a changed container: {e}"))?;
            } else {
                w.resync();
                w.check_contents().map_err(|e| format!("{op:?} failed in callback {at} and left an inconsistent container: {e}"))?;
            }
            for next in [Op::Insert(Key::New), Op::Remove(Key::First), Op::Insert(Key::Gone), Op::Iter] {
                w.apply(next).map_err(|e| format!("after {op:?} failed in callback {at}: {e}"))?;
            }
            w.check_contents().map_err(|e| format!("after {op:?} failed in callback {at}: {e}"))?;
            ctx.state(w.fingerprint());
            ctx.execution();
            at += 1;
        }
    })
}

/// One or two operations repeated, then the table is filled up to the capacity it reports: it must not grow
/// before that, and everything must still be found (and absent keys reported absent) when it is full.
fn repeat_and_fill(which: Which, ops: Vec<Op>, second: Vec<Op>, times: Vec<usize>, ns: Vec<usize>, kinds: Vec<usize>, profiles: Vec<usize>) -> Space<'static> {
    let count = (ops.len() * second.len() * times.len() * ns.len() * kinds.len() * profiles.len()) as u64;
    let desc = format!(
        "{} operations alternating with {} others, {times:?} times, from every start state (sizes {ns:?}, {} histories, {} profiles); then filled to the reported capacity; complete contents compared",
        ops.len(),
        second.len(),
        kinds.len(),
        profiles.len()
    );
    Space::new("fill", desc, count, move |i, ctx| {
        let mut r = Radix(i);
        let op = ops[r.take(ops.len())];
        let op2 = second[r.take(second.len())];
        let t = times[r.take(times.len())];
        let n = ns[r.take(ns.len())];
        let kind = kinds[r.take(kinds.len())];
        let p = profiles[r.take(profiles.len())];
        let mut w: World<()> = World::new(which, p);
        ctx.note(|| format!("start: {n} entries, {}, hashes: {}", kind_name(kind), profile_name(p)));
        build(&mut w, n, kind)?;
        for _ in 0..t {
            for o in [op, op2] {
                w.apply(o)?;
                ctx.step(|| format!("{o:?} (len {}, capacity {})", w.m.len(), w.capacity()));
            }
            if w.fresh > 300 {
                break;
            }
        }
        let cap = w.capacity();
        if cap > 300 {
            return Ok(());
        }
        while w.len() < w.capacity() {
            if w.fresh > 600 {
                return Ok(());
            }
            w.apply(Op::Insert(Key::New))?;
            if w.capacity() < cap {
                return Err(format!("capacity fell from {cap} to {} by inserting", w.capacity()));
            }
        }
        ctx.step(|| format!("filled to the capacity {cap}"));
        w.check_contents().map_err(|e| format!("filled to the capacity {cap}: {e}"))?;
        ctx.state(w.fingerprint());
        ctx.execution();
        Ok(())
    })
}

#[derive(Clone, Copy, PartialEq, Debug)]
#[repr(align(64))]
struct Wide(u64);
#[derive(Clone, Copy, PartialEq, Debug)]
struct Odd([u8; 3]);

/// Element types of different size and alignment, all insert/remove histories of small tables.
fn shapes(depth: usize) -> Space<'static> {
    fn run<T: Clone + PartialEq + std::fmt::Debug>(mk: impl Fn(u64) -> T, of: impl Fn(&T) -> u64 + Copy, hist: &[u64], pre: u64, profile: usize, ctx: &mut Ctx) -> CaseResult {
        let (mut e, mut g) = (Exec::new(0), Glob::default());
        let h = |x: u64| profile_hash(profile, x);
        let mut t: HashTable<T, Exec, Glob, Fault> = HashTable::new();
        let mut m: Vec<u64> = vec![];
        let mut next = 0;
        let mut put = |t: &mut HashTable<T, Exec, Glob, Fault>, m: &mut Vec<u64>| {
            let x = mk(next);
            next += 1;
            m.push(of(&x));
            t.insert_unique(h(of(&x)), x, |x| h(of(x)));
        };
        for _ in 0..pre {
            put(&mut t, &mut m);
        }
        for op in hist {
            match op {
                0 => put(&mut t, &mut m),
                1 | 2 if !m.is_empty() => {
                    let i = if *op == 1 { 0 } else { m.len() / 2 };
                    let id = m[i];
                    match t.find_entry(h(id), |x, _, _| Ok(of(x) == id), &mut e, &mut g).map_err(|f| format!("{f:?}"))? {
                        Ok(o) => {
                            let (x, _) = o.remove();
                            if of(&x) != id {
                                return Err(format!("removed {x:?} when looking for {id}"));
                            }
                        }
                        Err(_) => return Err(format!("{id} was not found")),
                    }
                    m.remove(i);
                }
                3 => t.shrink_to_fit(|x| h(of(x))),
                4 => t = t.clone(),
                5 => t.reserve(9, |x| h(of(x))),
                _ => {}
            }
            ctx.step(|| format!("operation {op}: {} elements", t.len()));
        }
        let mut a: Vec<u64> = t.iter().map(of).collect();
        a.sort();
        let mut b = m.clone();
        b.sort();
        if a != b || t.len() != b.len() {
            return Err(format!("elements are {a:?}, specified {b:?}"));
        }
        for id in &m {
            let r = t.find(h(*id), |x, _, _| Ok(of(x) == *id), &mut e, &mut g).map_err(|f| format!("{f:?}"))?;
            if r.map(of) != Some(*id) {
                return Err(format!("looking for {id} gives {r:?}"));
            }
            if r.map_or(false, |r| r as *const T as usize % std::mem::align_of::<T>() != 0) {
                return Err(format!("{id} is stored at an unaligned address"));
            }
        }
        let mut c: Vec<u64> = t.into_iter().map(|x| of(&x)).collect();
        c.sort();
        if c != b {
            return Err(format!("taken elements are {c:?}, specified {b:?}"));
        }
        ctx.execution();
        Ok(())
    }
    let pres = [0u64, 3, 7, 14, 28];
    let count = 6u64.pow(depth as u32) * 6 * pres.len() as u64 * 3;
    Space::new("shapes", format!("element types of size 0, 1, 3, 8, 16 and 64 (aligned to 64): all histories of {depth} operations from tables of {pres:?} elements, 3 hash profiles"), count, move |i, ctx| {
        let mut r = Radix(i);
        let ty = r.take(6);
        let pre = pres[r.take(pres.len())];
        let p = [0, 1, 9][r.take(3)];
        let hist: Vec<u64> = (0..depth).map(|_| r.take(6) as u64).collect();
        ctx.note(|| format!("element type {ty}, start {pre} elements, history {hist:?}"));
        match ty {
            0 => run(|_| (), |_| 0, &hist, pre, p, ctx),
            1 => run(|x| x as u8, |x| *x as u64, &hist, pre, p, ctx),
            2 => run(|x| Odd([x as u8, 7, x as u8]), |x| if x.0[0] == x.0[2] && x.0[1] == 7 { x.0[0] as u64 } else { 999 }, &hist, pre, p, ctx),
            3 => run(|x| x, |x| *x, &hist, pre, p, ctx),
            4 => run(|x| x as u128 | (x as u128) << 100, |x| if (*x >> 100) as u64 == *x as u64 { *x as u64 } else { 999 }, &hist, pre, p, ctx),
            _ => run(Wide, |x| x.0, &hist, pre, p, ctx),
        }
    })
}

fn main() {
    let prop = property_from_args();
    let tier = tier_from_args();
    let th = tier == Tier::Thorough;
    let (which, property, rule) = match prop.as_str() {
        "P09" => (Which::Table, "P09", "HashTable: after any history of operations the table holds exactly the elements put in and not taken out; a lookup finds an element iff one with that hash for which the closure answers true is stored; a failing closure is reported and changes nothing"),
        "P10" => (Which::Map, "P10", "HashMap: after any history of operations each key put in and not removed maps to the value last stored for it; the key first stored stays; a failing eql? is reported and changes nothing"),
        _ => (Which::Set, "P11", "HashSet: after any history of operations the set holds exactly the elements put in and not removed; subset/superset/eql? are the set relations; a failing eql? is reported and changes nothing"),
    };
    let all: Vec<usize> = (0..NKINDS).collect();
    let profs: Vec<usize> = (0..NPROFILES).collect();
    let full = alphabet(which);
    let core = core_alphabet(which);
    let mut spaces = vec![
        sequences("single", which, full.clone(), 1, (0..=if th { 60 } else { 30 }).collect(), all.clone(), profs.clone()),
        sequences("pairs", which, full.clone(), 2, if th { vec![0, 1, 2, 3, 4, 7, 8, 14, 15, 17, 20, 28, 29] } else { vec![0, 3, 7, 14, 20] }, if th { all.clone() } else { vec![0, 4, 7] }, if th { profs.clone() } else { vec![0, 1, 4, 6] }),
        sequences("triples", which, core.clone(), 3, vec![1, 3, 7, 14, 17, 28], if th { all.clone() } else { vec![0, 2, 4, 8] }, if th { profs.clone() } else { vec![0, 1, 6] }),
        holes(which, if th { vec![3, 5, 7, 9, 14, 17, 19, 20] } else { vec![3, 5, 7, 14, 17] }, if th { vec![0, 1, 3, 4, 6, 8, 9] } else { vec![1, 3, 6, 9] }),
        churn(which, if th { (1..=56).collect() } else { (1..=30).collect() }, if th { 500 } else { 150 }),
        faults(which, full.clone(), core.clone(), vec![0, 1, 3, 7, 14, 20], if th { all.clone() } else { vec![0, 4, 7] }, if th { profs.clone() } else { vec![0, 1, 5] }),
    ];
    spaces.push(repeat_and_fill(which, full.clone(), vec![Op::Nop, Op::Remove(Key::First), Op::Clone, Op::Insert(Key::Gone)], vec![1, 6, 25], if th { (0..=28).collect() } else { vec![0, 1, 3, 7, 14, 20] }, if th { all.clone() } else { vec![0, 2, 4, 8] }, if th { profs.clone() } else { vec![0, 1, 4, 6] }));
    if th {
        spaces.push(sequences("quadruples", which, core.clone(), 4, vec![3, 7, 14, 28], vec![0, 4, 7], vec![0, 1, 6]));
    }
    if which == Which::Table {
        spaces.push(shapes(if th { 7 } else { 5 }));
    }
    Check {
        property,
        tier,
        rule: rule.into(),
        assumptions: vec!["the hash given for an element never changes while it is stored".into(), "the SSE2 group implementation of this machine is the one exercised".into()],
        spaces,
    }
    .main();
}
