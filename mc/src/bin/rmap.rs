//! RubyMap: ordered-map refinement and everything that follows from it.
use engine::*;
use mc::env::*;
use mc::rworld::*;

/// How the environment of a run is prepared.
#[derive(Clone, Copy, PartialEq)]
enum Env {
    Plain,
    /// callbacks are counted and `eql?` may be asked only on equal hashes
    Protocol,
    /// as Protocol, and keys 2j and 2j+1 claim to be eql? although their hashes differ
    LiarPairs,
    /// as Protocol, and every key claims to be eql? to every other
    LiarAll,
}
fn prepare<P: Payload>(env: Env) -> impl Fn(&mut World<P>) {
    move |w| match env {
        Env::Plain => {}
        Env::Protocol => w.e.check_protocol = true,
        Env::LiarPairs => {
            w.e.check_protocol = true;
            for c in w.e.class.iter_mut() {
                *c /= 2;
            }
        }
        Env::LiarAll => {
            w.e.check_protocol = true;
            for c in w.e.class.iter_mut() {
                *c = 0;
            }
        }
    }
}

struct Seq {
    name: &'static str,
    alpha: Vec<Op>,
    depth: u32,
    env: Env,
    profiles: Vec<usize>,
    ns: Vec<usize>,
    kinds: Vec<usize>,
}
fn all_kinds() -> Vec<usize> {
    (0..NKINDS).collect()
}
fn all_profiles() -> Vec<usize> {
    (0..NPROFILES).collect()
}

impl Seq {
    fn space<'a>(self) -> Space<'a> {
        let Seq { name, alpha, depth, env, profiles, ns, kinds } = self;
        let starts = (profiles.len() * ns.len() * kinds.len()) as u64;
        let desc = format!(
            "all sequences of {depth} operations over an alphabet of {} from {} start states (sizes {ns:?} x {} histories x {} hash profiles)",
            alpha.len(),
            starts,
            kinds.len(),
            profiles.len()
        );
        Space::new(name, desc, starts * alpha.len() as u64, move |idx, ctx| {
            let mut r = Radix(idx);
            let op1 = alpha[r.take(alpha.len())];
            let p = profiles[r.take(profiles.len())];
            let k = kinds[r.take(kinds.len())];
            let n = ns[r.take(ns.len())];
            let rest = (alpha.len() as u64).pow(depth - 1);
            let mut ops = vec![op1; depth as usize];
            for j in 0..rest {
                let mut r = Radix(j);
                for d in 1..depth as usize {
                    ops[d] = alpha[r.take(alpha.len())];
                }
                run_sequence::<()>(p, n, k, &ops, prepare(env), ctx).map_err(|m| {
                    format!("{n} entries ({}), hashes {}, {ops:?}: {m}", kind_name(k), profile_name(p))
                })?;
            }
            Ok(())
        })
    }
}

/// Every positional operation at every position, then one more operation on what it left.
fn positions<'a>(name: &'static str, ns: Vec<usize>, profiles: Vec<usize>, kinds: Vec<usize>, then: Vec<Op>) -> Space<'a> {
    let per = (ns.len() * profiles.len() * kinds.len()) as u64;
    const PARTS: u64 = 16;
    Space::new(
        name,
        format!("every positional operation with every position and pair of positions, followed by each of {then:?}, at sizes {ns:?} x {} histories x {} hash profiles", kinds.len(), profiles.len()),
        per * PARTS,
        move |idx, ctx| {
            let mut r = Radix(idx);
            let part = r.take(PARTS as usize);
            let p = profiles[r.take(profiles.len())];
            let k = kinds[r.take(kinds.len())];
            let n = ns[r.take(ns.len())];
            for op in positional(n).into_iter().skip(part).step_by(PARTS as usize) {
                for t in &then {
                    let ops = [op, *t];
                    run_sequence::<()>(p, n, k, &ops, prepare(Env::Plain), ctx)
                        .map_err(|m| format!("{n} entries ({}), hashes {}, {ops:?}: {m}", kind_name(k), profile_name(p)))?;
                }
            }
            Ok(())
        },
    )
}

/// Grow entry by entry, comparing everything after each insertion, then shrink the same way.
fn growth<'a>(name: &'static str, max: usize, env: Env) -> Space<'a> {
    let grow = [
        Op::Insert(Key::New),
        Op::EntryOrInsert(Key::New),
        Op::InsertSym(Key::New),
        Op::InsertPrehashedWith(Key::New),
        Op::InsertBefore(Pos::Zero, Key::New),
        Op::ShiftInsert(Pos::Mid, Key::New),
        Op::InsertSorted(Key::New),
    ];
    let shrink = [
        Op::Pop,
        Op::ShiftRemoveIndex(Pos::Zero),
        Op::SwapRemoveIndex(Pos::Zero),
        Op::SwapRemove(Key::First),
        Op::ShiftRemove(Key::Mid),
        Op::TombIndex(Pos::Zero),
        Op::EntryOccShiftRemove(Key::First),
    ];
    Space::new(
        name,
        format!("grow one entry at a time to {max} by each of 7 ways, complete comparison after every step, then shrink to nothing by each of 7 ways, every hash profile"),
        (NPROFILES * grow.len() * shrink.len()) as u64,
        move |idx, ctx| {
            let mut r = Radix(idx);
            let p = r.take(NPROFILES);
            let gr = grow[r.take(grow.len())];
            let sh = shrink[r.take(shrink.len())];
            if matches!(env, Env::LiarAll | Env::LiarPairs)
                && (p == 1 || p == 5 || matches!(gr, Op::InsertSym(_) | Op::InsertSorted(_)))
            {
                return Ok(());
            }
            let max = if p == 0 || p == 2 || p == 9 { max } else { max.min(70) };
            let mut w: World<()> = World::new(p);
            prepare(env)(&mut w);
            ctx.note(|| format!("hashes: {}", profile_name(p)));
            for _ in 0..max {
                w.apply(gr)?;
                let len = w.m.len();
                ctx.step(|| format!("{gr:?} (len {len})"));
                w.check_contents()?;
                ctx.state(w.fingerprint());
            }
            while !w.m.is_empty() {
                let before = w.m.len();
                w.apply(sh)?;
                if w.m.len() == before {
                    w.apply(Op::Pop)?;
                }
                let len = w.m.len();
                ctx.step(|| format!("{sh:?} (len {len})"));
                w.check_contents()?;
            }
            ctx.execution();
            Ok(())
        },
    )
}

/// Every operation fails at every callback it makes; the error comes back and nothing has changed.
fn faults<'a>(
    name: &'static str,
    pre: Vec<Op>,
    ops: Vec<Op>,
    profiles: Vec<usize>,
    ns: Vec<usize>,
    kinds: Vec<usize>,
) -> Space<'a> {
    let starts = (profiles.len() * ns.len() * kinds.len()) as u64;
    let desc = format!(
        "{} preceding operations x {} keyed operations x every callback each makes failing, from {starts} start states (sizes {ns:?})",
        pre.len(),
        ops.len()
    );
    Space::new(name, desc, starts * ops.len() as u64, move |idx, ctx| {
        let mut r = Radix(idx);
        let op = ops[r.take(ops.len())];
        let p = profiles[r.take(profiles.len())];
        let k = kinds[r.take(kinds.len())];
        let n = ns[r.take(ns.len())];
        for pre in &pre {
            let mut at = 0u64;
            loop {
                ctx.trace.clear();
                let mut w: World<()> = World::new(p);
                build(&mut w, n, k)?;
                w.apply(*pre)?;
                ctx.note(|| format!("start: {n} entries, {}, hashes: {}, then {pre:?}", kind_name(k), profile_name(p)));
                if matches!(op, Op::Insert(Key::New) | Op::EntryOrInsert(Key::New)) {
                    w.check_contents()?;
                }
                let before = w.m.clone();
                let calls = w.e.calls;
                at += 1;
                w.e.fail_at = calls + at;
                w.real.clear();
                w.exp.clear();
                let r = w.step(op);
                let made = w.e.calls - calls;
                w.e.fail_at = 0;
                ctx.step(|| format!("{op:?} with callback {at} failing -> {r:?}"));
                let fail = |m: String| {
                    format!("{n} entries ({}), hashes {}, {pre:?} then {op:?} with callback {at} failing: {m}", kind_name(k), profile_name(p))
                };
                if made < at {
                    // the operation made fewer callbacks: nothing failed
                    if r.is_err() {
                        return Err(fail(format!("reported {r:?} although no callback failed")));
                    }
                    break;
                }
                if made > at {
                    return Err(fail(format!("went on calling user code {} times after the error", made - at)));
                }
                if r != Err(Fault(calls + at)) {
                    return Err(fail(format!("reported {r:?} instead of the error of the callback")));
                }
                if w.m != before {
                    return Err(fail("harness: model changed on error".into()));
                }
                w.check_contents().map_err(&fail)?;
                // the same operation now succeeds
                w.apply(op).map_err(&fail)?;
                w.check_contents().map_err(&fail)?;
                ctx.state(w.fingerprint());
                ctx.execution();
            }
        }
        Ok(())
    })
}

/// Steps of a traversal by position during which entries are deleted.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Walk {
    /// visit the next position
    Advance,
    DeleteCurrent,
    DeleteNext,
    DeleteFirst,
    DeleteLast,
    DeleteAbsent,
    UpdateCurrent,
    UpdateLast,
    /// delete the entry at the current position through an error: the first attempt fails
    DeleteFailing,
}
const WALK: [Walk; 9] = [
    Walk::Advance,
    Walk::DeleteCurrent,
    Walk::DeleteNext,
    Walk::DeleteFirst,
    Walk::DeleteLast,
    Walk::DeleteAbsent,
    Walk::UpdateCurrent,
    Walk::UpdateLast,
    Walk::DeleteFailing,
];

struct Window {
    w: World<()>,
    dead: Vec<bool>,
}
impl Window {
    fn live(&self) -> impl DoubleEndedIterator<Item = usize> + '_ {
        (0..self.dead.len()).filter(|i| !self.dead[*i])
    }
    /// every lookup sees exactly the live entries, at their original positions
    fn check(&mut self) -> Result<(), String> {
        let n = self.dead.len();
        if self.w.map.len() != n {
            return Err(format!("{} positions, specified {n}", self.w.map.len()));
        }
        for i in 0..n {
            let x = self.w.m[i];
            let (k, v) = self.w.map.get_index(i).ok_or("position vanished")?;
            if self.dead[i] {
                if k.id != DEAD {
                    return Err(format!("deleted position {i} shows k{}", k.id));
                }
            } else if (k.id, k.tag, v.v) != (x.id, x.tag, x.val) {
                return Err(format!("position {i} shows k{}={}, specified {x:?}", k.id, v.v));
            }
            let key = self.w.mk(x.id);
            let w = &mut self.w;
            let r = w.map.get_full(&key, &mut w.e, &mut w.g).map_err(|f| format!("{f:?}"))?;
            let r = r.map(|(i, _, v)| (i, v.v));
            let want = (!self.dead[i]).then_some((i, x.val));
            if r != want {
                return Err(format!("lookup of k{} gives {r:?}, specified {want:?}", x.id));
            }
        }
        Ok(())
    }
    fn delete_key(&mut self, i: usize) -> Result<(), String> {
        let (k, dk) = (self.w.mk(self.w.m[i].id), self.w.mk(DEAD));
        let w = &mut self.w;
        let r = w
            .map
            .tombstone_remove(&k, dk, V::new(0), &mut w.e, &mut w.g)
            .map_err(|f| format!("{f:?}"))?
            .map(|(i, k, v)| (i, k.id, k.tag, v.v));
        let x = w.m[i];
        let want = (!self.dead[i]).then_some((i, x.id, x.tag, x.val));
        if r != want {
            return Err(format!("deleting k{} gave {r:?}, specified {want:?}", x.id));
        }
        self.dead[i] = true;
        Ok(())
    }
    fn delete_index(&mut self, i: usize) -> Result<(), String> {
        let dk = self.w.mk(DEAD);
        let w = &mut self.w;
        let r = w
            .map
            .tombstone_index(i, dk, V::new(0), &mut w.e, &mut w.g)
            .map_err(|f| format!("{f:?}"))?
            .map(|(k, v)| (k.id, k.tag, v.v));
        let x = w.m[i];
        if r != Some((x.id, x.tag, x.val)) {
            return Err(format!("deleting position {i} gave {r:?}, specified {x:?}"));
        }
        self.dead[i] = true;
        Ok(())
    }
    fn close(mut self, ctx: &mut Ctx) -> Result<World<()>, String> {
        self.w.map.compact_tombstones(|k| k.id == DEAD);
        let dead = std::mem::take(&mut self.dead);
        let mut i = 0;
        let mut gone = None;
        self.w.m.retain(|x| {
            i += 1;
            if dead[i - 1] {
                gone = Some(x.id);
            }
            !dead[i - 1]
        });
        self.w.gone = gone.or(self.w.gone);
        let left = self.w.m.len();
        ctx.step(|| format!("close the window: {left} entries"));
        self.w.check_contents()?;
        Ok(self.w)
    }
}

fn traversals<'a>(name: &'static str, len: u32, profiles: Vec<usize>, ns: Vec<usize>, kinds: Vec<usize>) -> Space<'a> {
    let starts = (profiles.len() * ns.len() * kinds.len()) as u64;
    let after = [Op::Nop, Op::Insert(Key::New), Op::Insert(Key::Gone), Op::ShiftRemove(Key::First), Op::TombRemove(Key::Last), Op::EntryOrInsert(Key::Gone)];
    let desc = format!(
        "all sequences of {len} traversal steps from {} ({WALK:?}), lookups of every key after each step, then the window is closed and one of {} operations follows; {starts} start states (sizes {ns:?})",
        WALK.len(),
        after.len()
    );
    Space::new(name, desc, starts * WALK.len() as u64 * WALK.len() as u64, move |idx, ctx| {
        let mut r = Radix(idx);
        let s0 = WALK[r.take(WALK.len())];
        let s1 = WALK[r.take(WALK.len())];
        let p = profiles[r.take(profiles.len())];
        let k = kinds[r.take(kinds.len())];
        let n = ns[r.take(ns.len())];
        for j in 0..(WALK.len() as u64).pow(len - 2) {
            let mut r = Radix(j);
            let mut steps = vec![s0, s1];
            for _ in 2..len {
                steps.push(WALK[r.take(WALK.len())]);
            }
            let fail = |m: String| format!("{n} entries ({}), hashes {}, {steps:?}: {m}", kind_name(k), profile_name(p));
            ctx.trace.clear();
            let mut w: World<()> = World::new(p);
            build(&mut w, n, k)?;
            let absent = w.new_id();
            let mut t = Window { w, dead: vec![false; n] };
            let mut pos = 0usize;
            let mut cur: Option<usize> = None;
            for s in &steps {
                match s {
                    Walk::Advance => {
                        // skip deleted positions, yield the next live one
                        while pos < n && t.dead[pos] {
                            pos += 1;
                        }
                        if pos < n {
                            cur = Some(pos);
                            pos += 1;
                        }
                    }
                    Walk::DeleteCurrent => {
                        if let Some(c) = cur {
                            t.delete_key(c).map_err(fail)?;
                        }
                    }
                    Walk::DeleteNext => {
                        let i = t.live().find(|i| *i >= pos);
                        if let Some(i) = i {
                            t.delete_key(i).map_err(fail)?;
                        }
                    }
                    Walk::DeleteFirst => {
                        let i = t.live().next();
                        if let Some(i) = i {
                            t.delete_index(i).map_err(fail)?;
                        }
                    }
                    Walk::DeleteLast => {
                        let i = t.live().next_back();
                        if let Some(i) = i {
                            t.delete_index(i).map_err(fail)?;
                        }
                    }
                    Walk::DeleteAbsent => {
                        let (k, dk) = (t.w.mk(absent), t.w.mk(DEAD));
                        let w = &mut t.w;
                        let r = w
                            .map
                            .tombstone_remove(&k, dk, V::new(0), &mut w.e, &mut w.g)
                            .map_err(|f| fail(format!("{f:?}")))?;
                        if r.is_some() {
                            return Err(fail("deleting an absent key returned an entry".into()));
                        }
                        let dk = w.mk(DEAD);
                        let r = w
                            .map
                            .tombstone_index(n, dk, V::new(0), &mut w.e, &mut w.g)
                            .map_err(|f| fail(format!("{f:?}")))?;
                        if r.is_some() {
                            return Err(fail("deleting past the end returned an entry".into()));
                        }
                    }
                    Walk::UpdateCurrent | Walk::UpdateLast => {
                        let i = if *s == Walk::UpdateCurrent {
                            cur.filter(|c| !t.dead[*c])
                        } else {
                            let x = t.live().next_back();
                            x
                        };
                        if let Some(i) = i {
                            let id = t.w.m[i].id;
                            let key = t.w.mk(id);
                            let v = t.w.val();
                            let w = &mut t.w;
                            let old = w
                                .map
                                .insert(key, V::new(v), &mut w.e, &mut w.g)
                                .map_err(|f| fail(format!("{f:?}")))?
                                .map(|v| v.v);
                            if old != Some(w.m[i].val) {
                                return Err(fail(format!("updating k{id} returned {old:?}")));
                            }
                            w.m[i].val = v;
                        }
                    }
                    Walk::DeleteFailing => {
                        if let Some(c) = cur.filter(|c| !t.dead[*c]) {
                            let id = t.w.m[c].id;
                            for at in 1..=2 {
                                let (k, dk) = (t.w.mk(id), t.w.mk(DEAD));
                                let w = &mut t.w;
                                w.e.fail_at = w.e.calls + at;
                                let r = w.map.tombstone_remove(&k, dk, V::new(0), &mut w.e, &mut w.g);
                                if r != Err(Fault(w.e.fail_at)) {
                                    return Err(fail(format!("the error of callback {at} was not reported")));
                                }
                                w.e.fail_at = 0;
                            }
                        }
                    }
                }
                ctx.step(|| format!("{s:?} (at {pos}, current {cur:?})"));
                t.check().map_err(fail)?;
            }
            let mut w = t.close(ctx).map_err(fail)?;
            let op = after[(idx ^ j) as usize % after.len()];
            w.apply(op).map_err(fail)?;
            w.check_contents().map_err(fail)?;
            ctx.state(w.fingerprint());
            ctx.execution();
        }
        Ok(())
    })
}

/// Delete every subset of the entries, in ascending or descending order, by key or by position.
fn subsets<'a>(name: &'static str, max: usize, profiles: Vec<usize>, kinds: Vec<usize>) -> Space<'a> {
    Space::new(
        name,
        format!("every subset of up to {max} entries deleted (ascending, descending; by key, by position), window closed, three operations after"),
        (profiles.len() * kinds.len() * 4) as u64 * ((1u64 << (max + 1)) - 1),
        move |idx, ctx| {
            let mut r = Radix(idx);
            let p = profiles[r.take(profiles.len())];
            let k = kinds[r.take(kinds.len())];
            let mode = r.take(4);
            // subsets of sizes 0..=max numbered consecutively: 2^n - 1 + mask
            let mut n = 0;
            let mut rest = r.0;
            while rest >= 1 << n {
                rest -= 1 << n;
                n += 1;
            }
            let fail = |m: String| {
                format!("{n} entries ({}), hashes {}, deleting {rest:#b} mode {mode}: {m}", kind_name(k), profile_name(p))
            };
            let mut w: World<()> = World::new(p);
            build(&mut w, n, k)?;
            ctx.note(|| format!("{n} entries, {}, hashes {}", kind_name(k), profile_name(p)));
            let mut t = Window { w, dead: vec![false; n] };
            let mut order: Vec<usize> = (0..n).filter(|i| rest >> i & 1 == 1).collect();
            if mode & 1 == 1 {
                order.reverse();
            }
            for i in order {
                if mode & 2 == 0 {
                    t.delete_key(i).map_err(fail)?;
                } else {
                    t.delete_index(i).map_err(fail)?;
                }
                ctx.step(|| format!("delete position {i}"));
            }
            t.check().map_err(fail)?;
            let mut w = t.close(ctx).map_err(fail)?;
            for op in [Op::Insert(Key::Gone), Op::Insert(Key::New), Op::ShiftRemove(Key::First), Op::Insert(Key::New)] {
                w.apply(op).map_err(fail)?;
            }
            w.check_contents().map_err(fail)?;
            ctx.state(w.fingerprint());
            ctx.execution();
            Ok(())
        },
    )
}

fn keyed(a: Vec<Op>) -> Vec<Op> {
    a.into_iter()
        .filter(|o| callbacks(*o) == Calls::OneHash || matches!(o, Op::GetDisjoint(..)))
        .collect()
}

const EVERYTHING: &str = "lookup insert fast remove bulk tomb order storage entry idxentry";

fn main() {
    let prop = property_from_args();
    let tier = tier_from_args();
    let quick = tier == Tier::Quick;
    let small = vec![0, 1, 2, 3, 7, 8, 9, 10, 14, 15, 28, 29];
    let large = vec![16, 27, 30, 56, 57, 112, 113, 225];
    let mutators: Vec<Op> = {
        use Op::*;
        vec![
            Nop,
            Insert(Key::New),
            Insert(Key::Gone),
            Insert(Key::Mid),
            InsertBefore(Pos::One, Key::Last),
            ShiftInsert(Pos::Mid, Key::New),
            ShiftRemove(Key::First),
            SwapRemove(Key::Mid),
            SwapRemove(Key::Last),
            ShiftRemoveIndex(Pos::Mid),
            Pop,
            Truncate(Pos::Mid),
            Drain(Ran::Inner),
            SplitOffKeepTail(Pos::Mid),
            Retain(Pred::Even),
            TombRemove(Key::First),
            TombTwo(Key::Last, Pos::Zero),
            Reverse,
            SortByValDesc,
            MoveIndex(Pos::Zero, Pos::Last),
            Reserve(9),
            ShrinkToFit,
            Op::Clone,
            MapKeys,
            Extend,
            EntryOrInsert(Key::New),
            EntryOccSwapRemove(Key::First),
            EntryOccMove(Key::Mid, Pos::One),
            InsertSym(Key::New),
            InsertPrehashedWith(Key::New),
            Clear,
        ]
    };
    let (property, rule, spaces): (&'static str, &str, Vec<Space>) = match prop.as_str() {
        "P01" => {
            let a = alphabet(EVERYTHING);
            let mut v = vec![
                Seq { name: "single operations", alpha: a.clone(), depth: 1, env: Env::Plain, profiles: all_profiles(), ns: [small.clone(), large.clone()].concat(), kinds: all_kinds() }.space(),
                Seq { name: "pairs", alpha: a.clone(), depth: 2, env: Env::Plain, profiles: vec![0, 3, 6], ns: vec![0, 1, 2, 3, 8, 9, 15], kinds: vec![0, 4, 15] }.space(),
                Seq { name: "triples of mutations", alpha: mutators.clone(), depth: 3, env: Env::Plain, profiles: vec![0, 1, 9], ns: vec![0, 1, 6, 8, 9, 14], kinds: vec![0, 15] }.space(),
                growth("growth", 300, Env::Plain),
                positions("every position", vec![1, 2, 3, 5, 8, 9, 14, 15], all_profiles(), all_kinds(), vec![Op::Nop, Op::Insert(Key::New)]),
                positions("every position of larger maps", vec![28, 29, 56], vec![0, 3, 9], vec![0, 2, 4, 8, 15], vec![Op::Nop]),
            ];
            if !quick {
                v.push(positions("positions and a mutation", vec![2, 5, 8, 9, 14], vec![0, 1, 3, 6, 9], vec![0, 2, 4, 8, 9, 15], mutators.clone()));
                v.push(positions("every position of large maps", vec![28, 29, 56, 57, 112], all_profiles(), all_kinds(), vec![Op::Nop]));
                v.push(Seq { name: "pairs from every history", alpha: a.clone(), depth: 2, env: Env::Plain, profiles: all_profiles(), ns: small.clone(), kinds: all_kinds() }.space());
                v.push(Seq { name: "pairs at larger sizes", alpha: a.clone(), depth: 2, env: Env::Plain, profiles: vec![0, 6, 7], ns: vec![56, 57, 112], kinds: vec![0, 15] }.space());
                v.push(Seq { name: "four mutations", alpha: mutators, depth: 4, env: Env::Plain, profiles: vec![0, 3, 6], ns: vec![0, 1, 6, 8, 9, 14], kinds: vec![0, 4, 15] }.space());
                v.push(Seq { name: "triples", alpha: a, depth: 3, env: Env::Plain, profiles: vec![0, 8], ns: vec![0, 2, 8, 9], kinds: vec![0, 15] }.space());
            }
            ("P01", "every sequence of operations of the given length from every start state; each return value and, at the end, the complete contents are compared with an ordered association list", v)
        }
        "P02" => {
            let a: Vec<Op> = alphabet(EVERYTHING);
            let liar: Vec<Op> = alphabet("lookup insert remove bulk tomb order storage entry idxentry")
                .into_iter()
                .filter(|o| !matches!(o, Op::InsertSorted(_) | Op::EntryVacInsertSorted | Op::SortUnstableKeys))
                .collect();
            let mut stale = liar.clone();
            stale.extend(alphabet("stale").into_iter().skip(1));
            stale.extend([Op::GetPrehashed(Key::First), Op::GetPrehashedWith(Key::Mid), Op::InsertPrehashed(Key::First), Op::InsertPrehashedWith(Key::Mid)]);
            let stale_core: Vec<Op> = mutators
                .iter()
                .copied()
                .filter(|o| !matches!(o, Op::InsertSym(_)))
                .chain([Op::Stale(Key::First), Op::Stale(Key::Mid), Op::Get(Key::First), Op::Get(Key::Mid), Op::Rebuild])
                .collect();
            let mut v = vec![
                Seq { name: "callbacks", alpha: a.clone(), depth: 1, env: Env::Protocol, profiles: all_profiles(), ns: small.clone(), kinds: all_kinds() }.space(),
                Seq { name: "eql? in pairs, hashes differ", alpha: liar.clone(), depth: 1, env: Env::LiarPairs, profiles: vec![0, 2, 3, 4, 6, 7, 8, 9], ns: [small.clone(), vec![56, 57]].concat(), kinds: all_kinds() }.space(),
                Seq { name: "eql? everywhere, hashes differ", alpha: liar.clone(), depth: 1, env: Env::LiarAll, profiles: vec![0, 2, 3, 4, 6, 7, 8, 9], ns: small.clone(), kinds: all_kinds() }.space(),
                Seq { name: "changed keys", alpha: stale.clone(), depth: 2, env: Env::Protocol, profiles: vec![0, 4], ns: vec![1, 2, 3, 8, 9, 15], kinds: vec![0, 15] }.space(),
                Seq { name: "changed keys, longer", alpha: stale_core.clone(), depth: 3, env: Env::Protocol, profiles: vec![0, 4], ns: vec![1, 2, 8, 9], kinds: vec![0, 4] }.space(),
                Seq { name: "eql? everywhere, pairs", alpha: liar.clone(), depth: 2, env: Env::LiarAll, profiles: vec![4], ns: vec![1, 2, 8, 9], kinds: vec![0, 15] }.space(),
                growth("growth, eql? everywhere", 120, Env::LiarAll),
            ];
            if !quick {
                v.push(Seq { name: "callbacks, pairs", alpha: a, depth: 2, env: Env::Protocol, profiles: all_profiles(), ns: small.clone(), kinds: vec![0, 1, 4, 9, 15] }.space());
                v.push(Seq { name: "changed keys, pairs everywhere", alpha: stale, depth: 2, env: Env::Protocol, profiles: vec![0, 2, 3, 4, 6, 7, 8, 9], ns: small.clone(), kinds: all_kinds() }.space());
                v.push(Seq { name: "changed keys, four", alpha: stale_core, depth: 4, env: Env::Protocol, profiles: vec![0, 4], ns: vec![1, 2, 8, 9], kinds: vec![0, 4] }.space());
            }
            ("P02", "as P01, with keys whose eql? contradicts their hash, keys whose hash changes while stored, and a monitor on every call of user code", v)
        }
        "P03" => {
            let ops = keyed(alphabet("lookup insert remove entry"));
            let pre: Vec<Op> = vec![Op::Nop, Op::Stale(Key::First)];
            let _ = pre;
            let mut v = vec![
                faults("every callback of every operation", vec![Op::Nop], ops.clone(), all_profiles(), [small.clone(), vec![56, 57]].concat(), all_kinds()),
                faults("after one mutation", mutators.clone(), ops.clone(), vec![0, 1, 4, 5], vec![1, 2, 8, 9, 15], vec![0, 4, 15]),
            ];
            if !quick {
                v.push(faults("after any operation", alphabet(EVERYTHING), ops, all_profiles(), small.clone(), vec![0, 1, 4, 9, 15]));
            }
            ("P03", "every keyed operation, from every start state, with each of its callbacks into user code failing in turn", v)
        }
        "P04" => {
            let mut v = vec![
                subsets("subsets", if quick { 10 } else { 14 }, if quick { vec![0, 1, 6] } else { all_profiles() }, if quick { vec![0, 4] } else { all_kinds() }),
                traversals("traversals", 5, vec![0, 3], vec![1, 2, 3, 8, 9], vec![0, 15]),
                traversals("traversals of larger maps", 3, all_profiles(), vec![7, 10, 15, 29, 57], all_kinds()),
                Seq { name: "windows among other operations", alpha: mutators.iter().copied().chain(alphabet("tomb").into_iter().skip(1)).collect(), depth: 3, env: Env::Plain, profiles: vec![0, 6], ns: vec![1, 3, 8, 9], kinds: vec![0, 4] }.space(),
            ];
            if !quick {
                v.push(traversals("longer traversals", 7, vec![0, 3], vec![2, 3, 8, 9], vec![0, 15]));
                v.push(Seq { name: "windows among all operations", alpha: alphabet(EVERYTHING), depth: 2, env: Env::Plain, profiles: vec![0, 6], ns: small.clone(), kinds: vec![9] }.space());
            }
            ("P04", "every sequence of traversal steps and deletions from every start state; every key is looked up after each step", v)
        }
        "P05" => {
            let fast = alphabet("fast");
            let mut mix = fast.clone();
            mix.extend(alphabet("lookup insert remove").into_iter().skip(1));
            let core: Vec<Op> = fast
                .iter()
                .copied()
                .chain(mutators.iter().copied().skip(1))
                .collect();
            let mut v = vec![
                Seq { name: "every path alone", alpha: mix.clone(), depth: 1, env: Env::Protocol, profiles: all_profiles(), ns: [small.clone(), large.clone()].concat(), kinds: all_kinds() }.space(),
                Seq { name: "every pair of paths", alpha: mix.clone(), depth: 2, env: Env::Protocol, profiles: vec![0, 1, 3, 5, 6], ns: vec![0, 1, 2, 7, 8, 9, 15], kinds: vec![0, 4, 15] }.space(),
                Seq { name: "three fast operations", alpha: core.clone(), depth: 3, env: Env::Protocol, profiles: vec![0, 5], ns: vec![0, 1, 7, 8, 9], kinds: vec![0, 15] }.space(),
                growth("growth", 300, Env::Protocol),
            ];
            if !quick {
                v.push(Seq { name: "every pair of paths, every start", alpha: mix, depth: 2, env: Env::Protocol, profiles: all_profiles(), ns: small.clone(), kinds: all_kinds() }.space());
                v.push(Seq { name: "four fast operations", alpha: core, depth: 4, env: Env::Protocol, profiles: vec![0, 5], ns: vec![0, 7, 8, 9], kinds: vec![0] }.space());
            }
            ("P05", "sequences mixing the symbol, precomputed-hash and general paths; each return value and the final contents are compared with an ordered association list", v)
        }
        "P06" => {
            let e: Vec<Op> = alphabet("entry idxentry");
            let mut mix = e.clone();
            mix.extend(mutators.iter().copied().skip(1));
            let mut v = vec![
                Seq { name: "every handle operation", alpha: e.clone(), depth: 1, env: Env::Plain, profiles: all_profiles(), ns: [small.clone(), large.clone()].concat(), kinds: all_kinds() }.space(),
                Seq { name: "pairs", alpha: mix.clone(), depth: 2, env: Env::Plain, profiles: vec![0, 1, 3, 6, 8], ns: vec![0, 1, 2, 3, 7, 8, 9, 10, 15], kinds: vec![0, 4, 8, 15] }.space(),
                Seq { name: "triples", alpha: e.clone(), depth: 3, env: Env::Plain, profiles: vec![0], ns: vec![1, 3, 9], kinds: vec![0, 15] }.space(),
                positions("handles at every position", vec![1, 2, 3, 5, 8, 9, 14, 15, 28], vec![0, 3, 6], vec![0, 2, 4, 8, 15], vec![Op::Nop]),
                faults("failing callbacks", vec![Op::Nop], keyed(e.clone()), vec![0, 1, 4, 5], small.clone(), vec![0, 4, 15]),
            ];
            if !quick {
                v.push(Seq { name: "pairs, every start", alpha: mix, depth: 2, env: Env::Plain, profiles: all_profiles(), ns: small.clone(), kinds: all_kinds() }.space());
                v.push(Seq { name: "triples, more starts", alpha: e, depth: 3, env: Env::Plain, profiles: vec![0, 1, 6], ns: vec![0, 2, 5, 8, 10, 15], kinds: vec![0, 4, 15] }.space());
            }
            ("P06", "every sequence of handle operations from every start state, against an ordered association list", v)
        }
        _ => {
            eprintln!("unknown property {prop}");
            std::process::exit(2)
        }
    };
    Check { property, tier, rule: rule.into(), assumptions: vec![], spaces }.main()
}
