//! P07: iterators, slices and positional views of RubyMap / RubySet show exactly the entries, in order.
use engine::*;
use mc::env::*;
use mc::rworld::*;
use rubymap::{RubyMap, RubySet};
use std::hash::{Hash, Hasher};
use std::ops::Bound;
use std::panic::{catch_unwind, AssertUnwindSafe};

type KK = K<()>;
type VV = V<()>;
type Set = RubySet<KK, Exec, Glob, Fault, Ident>;

/// Actions on a double-ended iterator.
const ACTS: usize = 5;
const ENDS: usize = 9;
fn act_name(a: usize) -> &'static str {
    ["next", "next_back", "nth(1)", "nth_back(1)", "nth(0)"][a]
}

/// Run `acts` then the terminal `end`, comparing with the items `exp`.
fn drive<I, F>(mut it: I, tok: F, exp: &[u64], acts: &[usize], end: usize, rest: impl Fn(&I) -> Option<Vec<u64>>) -> Result<(), String>
where
    I: DoubleEndedIterator + ExactSizeIterator,
    F: Fn(I::Item) -> u64,
{
    let (mut lo, mut hi) = (0usize, exp.len());
    let step = |real: Option<u64>, want: Option<u64>, what: &str| -> Result<(), String> {
        if real != want {
            return Err(format!("{what} gave {real:?}, specified {want:?}"));
        }
        Ok(())
    };
    for a in acts {
        let want = match a {
            0 | 4 => {
                if lo < hi {
                    lo += 1;
                    Some(exp[lo - 1])
                } else {
                    None
                }
            }
            1 => {
                if lo < hi {
                    hi -= 1;
                    Some(exp[hi])
                } else {
                    None
                }
            }
            2 => {
                if hi - lo >= 2 {
                    lo += 2;
                    Some(exp[lo - 1])
                } else {
                    lo = hi;
                    None
                }
            }
            _ => {
                if hi - lo >= 2 {
                    hi -= 2;
                    Some(exp[hi])
                } else {
                    hi = lo;
                    None
                }
            }
        };
        let real = match a {
            0 => it.next(),
            1 => it.next_back(),
            2 => it.nth(1),
            3 => it.nth_back(1),
            _ => it.nth(0),
        }
        .map(&tok);
        step(real, want, act_name(*a))?;
        if it.len() != hi - lo || it.size_hint() != (hi - lo, Some(hi - lo)) {
            return Err(format!("after {} len is {} / {:?}, specified {}", act_name(*a), it.len(), it.size_hint(), hi - lo));
        }
        if let Some(r) = rest(&it) {
            if r != exp[lo..hi] {
                return Err(format!("remaining items are {r:?}, specified {:?}", &exp[lo..hi]));
            }
        }
    }
    let left = &exp[lo..hi];
    let list = |real: Vec<u64>, want: Vec<u64>, what: &str| -> Result<(), String> {
        if real != want {
            return Err(format!("{what} gave {real:?}, specified {want:?}"));
        }
        Ok(())
    };
    match end {
        0 => list(it.map(&tok).collect(), left.to_vec(), "collect"),
        1 => list(it.rev().map(&tok).collect(), left.iter().rev().copied().collect(), "rev collect"),
        2 => list(
            it.fold(vec![], |mut v, x| {
                v.push(tok(x));
                v
            }),
            left.to_vec(),
            "fold",
        ),
        3 => list(
            it.rfold(vec![], |mut v, x| {
                v.push(tok(x));
                v
            }),
            left.iter().rev().copied().collect(),
            "rfold",
        ),
        4 => {
            let c = it.count();
            if c != left.len() {
                return Err(format!("count gave {c}, specified {}", left.len()));
            }
            Ok(())
        }
        5 => step(it.last().map(&tok), left.last().copied(), "last"),
        6 => {
            drop(it);
            Ok(())
        }
        7 => {
            step(it.nth(left.len()).map(&tok), None, "nth past the end")?;
            step(it.next().map(&tok), None, "next after the end")?;
            step(it.next_back().map(&tok), None, "next_back after the end")
        }
        _ => {
            let r: Vec<u64> = it.by_ref().map(&tok).collect();
            list(r, left.to_vec(), "collect by reference")?;
            step(it.next().map(&tok), None, "next after the end")
        }
    }
}

fn kv(k: &KK, v: &VV) -> u64 {
    (k.id as u64) << 40 | (k.tag as u64) << 24 | v.v as u64
}
fn kk(k: &KK) -> u64 {
    (k.id as u64) << 40 | (k.tag as u64)
}

fn no<I>(_: &I) -> Option<Vec<u64>> {
    None
}
fn slice_items(s: &rubymap::map::Slice<KK, VV>) -> Vec<u64> {
    s.iter().map(|(k, v)| kv(k, v)).collect()
}

const KINDS_IT: usize = 21;
fn it_name(k: usize) -> &'static str {
    [
        "iter", "&map", "keys", "values", "iter_mut", "&mut map", "values_mut", "into_iter", "into_keys",
        "into_values", "drain(..)", "drain(1..)", "slice.iter", "slice.keys", "slice.values", "slice.iter_mut",
        "slice.values_mut", "boxed slice into_iter", "boxed slice into_keys", "boxed slice into_values", "iter.clone",
    ][k]
}

fn iterate(w: &World<()>, which: usize, acts: &[usize], end: usize) -> Result<(), String> {
    let pairs: Vec<u64> = w.m.iter().map(|x| (x.id as u64) << 40 | (x.tag as u64) << 24 | x.val as u64).collect();
    let keys: Vec<u64> = w.m.iter().map(|x| (x.id as u64) << 40 | x.tag as u64).collect();
    let vals: Vec<u64> = w.m.iter().map(|x| x.val as u64).collect();
    let m = &w.map;
    let mut c = m.clone();
    let (mut e, mut g) = (Exec::new_blank(), Glob::default());
    match which {
        0 => drive(m.iter(), |(k, v)| kv(k, v), &pairs, acts, end, |i| Some(slice_items(i.as_slice()))),
        1 => drive(m.into_iter(), |(k, v): (&KK, &VV)| kv(k, v), &pairs, acts, end, no),
        2 => drive(m.keys(), kk, &keys, acts, end, |i| Some((0..i.len()).map(|j| kk(&i[j])).collect())),
        3 => drive(m.values(), |v| v.v as u64, &vals, acts, end, |i| Some(i.clone().map(|v| v.v as u64).collect())),
        4 | 5 => {
            let f = |(k, v): (&KK, &mut VV)| {
                let r = kv(k, v);
                v.v += 1000;
                r
            };
            let it = if which == 4 { c.iter_mut() } else { (&mut c).into_iter() };
            drive(it, f, &pairs, acts, end, |i| Some(slice_items(i.as_slice())))?;
            let changed = c.values().filter(|v| v.v >= 1000).count();
            let _ = changed;
            for (i, (k, v)) in c.iter().enumerate() {
                if k.id != w.m[i].id || v.v % 1000 != w.m[i].val % 1000 {
                    return Err(format!("writing through the iterator changed entry {i} wrongly"));
                }
            }
            Ok(())
        }
        6 => drive(
            c.values_mut(),
            |v| {
                let r = v.v as u64;
                v.v += 1;
                r
            },
            &vals,
            acts,
            end,
            no,
        ),
        7 => drive(c.into_iter(), |(k, v)| kv(&k, &v), &pairs, acts, end, |i| Some(slice_items(i.as_slice()))),
        8 => drive(c.into_keys(), |k| kk(&k), &keys, acts, end, no),
        9 => drive(c.into_values(), |v| v.v as u64, &vals, acts, end, no),
        10 => {
            let d = c.drain(.., &mut e, &mut g).map_err(|f| format!("{f:?}"))?;
            drive(d, |(k, v)| kv(&k, &v), &pairs, acts, end, |i| Some(slice_items(i.as_slice())))?;
            if !c.is_empty() {
                return Err("drained map is not empty".into());
            }
            Ok(())
        }
        11 => {
            if pairs.is_empty() {
                return Ok(());
            }
            let d = c.drain(1.., &mut e, &mut g).map_err(|f| format!("{f:?}"))?;
            drive(d, |(k, v)| kv(&k, &v), &pairs[1..], acts, end, |i| Some(slice_items(i.as_slice())))?;
            if c.iter().map(|(k, v)| kv(k, v)).collect::<Vec<_>>() != pairs[..1] {
                return Err("draining all but the first entry left something else".into());
            }
            Ok(())
        }
        12 => drive(m.as_slice().iter(), |(k, v)| kv(k, v), &pairs, acts, end, no),
        13 => drive(m.as_slice().keys(), kk, &keys, acts, end, no),
        14 => drive(m.as_slice().values(), |v| v.v as u64, &vals, acts, end, no),
        15 => drive(c.as_mut_slice().iter_mut(), |(k, v)| kv(k, v), &pairs, acts, end, no),
        16 => drive(c.as_mut_slice().values_mut(), |v| v.v as u64, &vals, acts, end, no),
        17 => drive(c.into_boxed_slice().into_iter(), |(k, v)| kv(&k, &v), &pairs, acts, end, no),
        18 => drive(c.into_boxed_slice().into_keys(), |k| kk(&k), &keys, acts, end, no),
        19 => drive(c.into_boxed_slice().clone().into_values(), |v| v.v as u64, &vals, acts, end, no),
        _ => drive(m.iter().clone(), |(k, v)| kv(k, v), &pairs, acts, end, |i| {
            Some(i.clone().map(|(k, v)| kv(k, v)).collect())
        }),
    }
}

fn iter_space<'a>(name: &'static str, ns: Vec<usize>, kinds: Vec<usize>, len: usize) -> Space<'a> {
    let per = (ns.len() * kinds.len() * KINDS_IT * ENDS) as u64;
    Space::new(
        name,
        format!("{KINDS_IT} kinds of iterators over maps of sizes {ns:?}: every sequence of up to {len} of {ACTS} steps (from both ends), then each of {ENDS} ways to finish"),
        per,
        move |idx, ctx| {
            let mut r = Radix(idx);
            let end = r.take(ENDS);
            let which = r.take(KINDS_IT);
            let kind = kinds[r.take(kinds.len())];
            let n = ns[r.take(ns.len())];
            let mut w: World<()> = World::new(0);
            build(&mut w, n, kind)?;
            for l in 0..=len {
                for j in 0..(ACTS as u64).pow(l as u32) {
                    let mut r = Radix(j);
                    let acts: Vec<usize> = (0..l).map(|_| r.take(ACTS)).collect();
                    ctx.step(|| format!("{} of {n} entries ({}): {:?} end {end}", it_name(which), kind_name(kind), acts.iter().map(|a| act_name(*a)).collect::<Vec<_>>()));
                    if ctx.tracing && ctx.trace.len() > 20 {
                        ctx.trace.remove(0);
                    }
                    iterate(&w, which, &acts, end).map_err(|m| {
                        format!("{} over {n} entries ({}), steps {:?} end {end}: {m}", it_name(which), kind_name(kind), acts.iter().map(|a| act_name(*a)).collect::<Vec<_>>())
                    })?;
                    ctx.execution();
                }
            }
            ctx.state(idx);
            Ok(())
        },
    )
}

fn set_of(n: usize) -> (Set, Vec<u64>, Exec, Glob) {
    let mut e = Exec::new(0);
    let mut g = Glob::default();
    let mut s: Set = RubySet::with_hasher(Ident);
    let mut x = vec![];
    for i in 0..n {
        let id = (i * 7 % 13) as u16;
        let k = K::new(id, i as u32);
        x.push(kk(&k));
        s.insert(k, &mut e, &mut g).unwrap();
    }
    (s, x, e, g)
}
fn set_iter_space<'a>(len: usize) -> Space<'a> {
    const W: usize = 5;
    Space::new(
        "set iterators",
        format!("iterators over sets of 0..6 elements: every sequence of up to {len} steps, then each way to finish"),
        (7 * W * ENDS) as u64,
        move |idx, ctx| {
            let mut r = Radix(idx);
            let n = r.take(7);
            let which = r.take(W);
            let end = r.take(ENDS);
            for l in 0..=len {
                for j in 0..(ACTS as u64).pow(l as u32) {
                    let mut r = Radix(j);
                    let acts: Vec<usize> = (0..l).map(|_| r.take(ACTS)).collect();
                    let (mut s, x, mut e, mut g) = set_of(n);
                    let res = match which {
                        0 => drive(s.iter(), kk, &x, &acts, end, |i| Some(i.clone().map(kk).collect())),
                        1 => drive((&s).into_iter(), kk, &x, &acts, end, no),
                        2 => drive(s.into_iter(), |k| kk(&k), &x, &acts, end, no),
                        3 => {
                            let r = drive(s.drain(.., &mut e, &mut g).unwrap(), |k| kk(&k), &x, &acts, end, |d| {
                                Some(d.as_slice().iter().map(kk).collect())
                            });
                            if !s.is_empty() {
                                return Err("drained set is not empty".into());
                            }
                            r
                        }
                        _ => drive(s.into_boxed_slice().into_iter(), |k| kk(&k), &x, &acts, end, no),
                    };
                    ctx.step(|| format!("set iterator {which} of {n} elements, steps {acts:?} end {end}"));
                    if ctx.tracing && ctx.trace.len() > 20 {
                        ctx.trace.remove(0);
                    }
                    res.map_err(|m| format!("set iterator {which} of {n} elements, steps {acts:?} end {end}: {m}"))?;
                    ctx.execution();
                }
            }
            ctx.state(1 << 40 | idx);
            Ok(())
        },
    )
}

fn must_panic<R>(f: impl FnOnce() -> R) -> bool {
    catch_unwind(AssertUnwindSafe(|| {
        f();
    }))
    .is_err()
}
fn bounds(n: usize) -> Vec<Bound<usize>> {
    let mut v = vec![Bound::Unbounded];
    for i in 0..=n + 1 {
        v.push(Bound::Included(i));
        v.push(Bound::Excluded(i));
    }
    v.push(Bound::Included(usize::MAX));
    v.push(Bound::Excluded(usize::MAX));
    v
}
fn resolve(a: Bound<usize>, b: Bound<usize>, n: usize) -> Option<(usize, usize)> {
    let lo = match a {
        Bound::Unbounded => 0,
        Bound::Included(i) => i,
        Bound::Excluded(i) => i.checked_add(1)?,
    };
    let hi = match b {
        Bound::Unbounded => n,
        Bound::Included(i) => i.checked_add(1)?,
        Bound::Excluded(i) => i,
    };
    (lo <= hi && hi <= n).then_some((lo, hi))
}

fn ranges<'a>(max: usize) -> Space<'a> {
    Space::new(
        "ranges",
        format!("every pair of range bounds over maps and sets of 0..{max} entries: get_range, indexing, drain, and the slices' own ranges"),
        (max as u64 + 1) * 2,
        move |idx, ctx| {
            let n = (idx / 2) as usize;
            let kind = if idx % 2 == 0 { 0 } else { 4 };
            let mut w: World<()> = World::new(0);
            build(&mut w, n, kind)?;
            let pairs: Vec<u64> = w.map.iter().map(|(k, v)| kv(k, v)).collect();
            let (s, sx, _, _) = set_of(n);
            for a in bounds(n) {
                for b in bounds(n) {
                    let want = resolve(a, b, n);
                    ctx.step(|| format!("{n} entries, range {a:?}..{b:?}"));
                    let fail = |m: &str| format!("{n} entries ({}), range {a:?} to {b:?}: {m}", kind_name(kind));
                    let wl = want.map(|(x, y)| pairs[x..y].to_vec());
                    let r = w.map.get_range((a, b)).map(slice_items);
                    if r != wl {
                        return Err(fail(&format!("get_range gave {r:?}")));
                    }
                    let r = w.map.as_slice().get_range((a, b)).map(slice_items);
                    if r != wl {
                        return Err(fail(&format!("slice get_range gave {r:?}")));
                    }
                    let mut c = w.map.clone();
                    let r = c.get_range_mut((a, b)).map(|s| slice_items(s));
                    if r != wl {
                        return Err(fail(&format!("get_range_mut gave {r:?}")));
                    }
                    let r = c.as_mut_slice().get_range_mut((a, b)).map(|s| slice_items(s));
                    if r != wl {
                        return Err(fail(&format!("slice get_range_mut gave {r:?}")));
                    }
                    let sw = want.map(|(x, y)| sx[x..y].to_vec());
                    let r: Option<Vec<u64>> = s.get_range((a, b)).map(|s| s.iter().map(kk).collect());
                    if r != sw {
                        return Err(fail(&format!("set get_range gave {r:?}")));
                    }
                    let r: Option<Vec<u64>> = s.as_slice().get_range((a, b)).map(|s| s.iter().map(kk).collect());
                    if r != sw {
                        return Err(fail(&format!("set slice get_range gave {r:?}")));
                    }
                    match &wl {
                        Some(l) => {
                            if slice_items(&w.map[(a, b)]) != *l
                                || slice_items(&w.map.as_slice()[(a, b)]) != *l
                                || slice_items(&mut c[(a, b)]) != *l
                                || slice_items(&mut c.as_mut_slice()[(a, b)]) != *l
                                || s[(a, b)].iter().map(kk).collect::<Vec<_>>() != sw.clone().unwrap()
                                || s.as_slice()[(a, b)].iter().map(kk).collect::<Vec<_>>() != sw.unwrap()
                            {
                                return Err(fail("indexing shows other entries"));
                            }
                            let (x, y) = want.unwrap();
                            let typed = [
                                slice_items(&w.map[x..y]),
                                if y > x { slice_items(&w.map[x..=y - 1]) } else { l.clone() },
                                if y == n { slice_items(&w.map[x..]) } else { l.clone() },
                                if x == 0 { slice_items(&w.map[..y]) } else { l.clone() },
                                if x == 0 && y > 0 { slice_items(&w.map[..=y - 1]) } else { l.clone() },
                                if x == 0 && y == n { slice_items(&w.map[..]) } else { l.clone() },
                                slice_items(&w.map.as_slice()[x..y]),
                                if y > x { slice_items(&w.map.as_slice()[x..=y - 1]) } else { l.clone() },
                                if y == n { slice_items(&w.map.as_slice()[x..]) } else { l.clone() },
                                if x == 0 { slice_items(&w.map.as_slice()[..y]) } else { l.clone() },
                            ];
                            for (i, t) in typed.iter().enumerate() {
                                if t != l {
                                    return Err(fail(&format!("indexing by range type {i} shows {t:?}")));
                                }
                            }
                            // writes through a range reach exactly those entries
                            for v in c[(a, b)].values_mut() {
                                v.v += 5000;
                            }
                            for (i, v) in c.values().enumerate() {
                                let d = if i >= x && i < y { 5000 } else { 0 };
                                if v.v != w.m[i].val + d {
                                    return Err(fail(&format!("writing through the range changed entry {i} wrongly")));
                                }
                            }
                        }
                        None => {
                            if !must_panic(|| slice_items(&w.map[(a, b)]))
                                || !must_panic(|| slice_items(&w.map.as_slice()[(a, b)]))
                                || !must_panic(|| s[(a, b)].len())
                            {
                                return Err(fail("indexing out of range did not panic"));
                            }
                        }
                    }
                    // drain
                    let mut c = w.map.clone();
                    let (mut e, mut g) = (Exec::new_blank(), Glob::default());
                    let real = catch_unwind(AssertUnwindSafe(|| {
                        c.drain((a, b), &mut e, &mut g).unwrap().map(|(k, v)| kv(&k, &v)).collect::<Vec<_>>()
                    }))
                    .ok();
                    if real != wl {
                        return Err(fail(&format!("drain gave {real:?}")));
                    }
                    let mut leftover = pairs.clone();
                    if let Some((x, y)) = want {
                        leftover.drain(x..y);
                    }
                    if c.iter().map(|(k, v)| kv(k, v)).collect::<Vec<_>>() != leftover {
                        return Err(fail("drain left other entries"));
                    }
                    ctx.execution();
                }
            }
            ctx.state(2 << 40 | idx);
            Ok(())
        },
    )
}

/// Slices: splitting, first/last, searches, comparisons, disjoint access.
fn slices<'a>(max: usize) -> Space<'a> {
    Space::new(
        "slices",
        format!("slices of 0..{max} entries with every pattern of sort keys over three values: splitting at every point, searches, comparison, disjoint access by every pair of positions"),
        (0..=max).map(|n| 3u64.pow(n as u32)).sum(),
        move |idx, ctx| {
            let mut n = 0;
            let mut rest = idx;
            while rest >= 3u64.pow(n) {
                rest -= 3u64.pow(n);
                n += 1;
            }
            let n = n as usize;
            let mut r = Radix(rest);
            let pat: Vec<u32> = (0..n).map(|_| r.take(3) as u32 * 10).collect();
            let fail = |m: String| format!("values {pat:?}: {m}");
            ctx.step(|| format!("values {pat:?}"));
            let mut e = Exec::new(0);
            let mut g = Glob::default();
            let mut m: RubyMap<KK, VV, Exec, Glob, Fault, Ident> = RubyMap::with_hasher(Ident);
            let mut s: Set = RubySet::with_hasher(Ident);
            for i in 0..n {
                m.insert(K::new(i as u16 * 2, i as u32), V::new(pat[i]), &mut e, &mut g).unwrap();
                s.insert(K::new(i as u16 * 2, i as u32), &mut e, &mut g).unwrap();
            }
            let items = slice_items(m.as_slice());
            if m.as_slice().len() != n || m.as_slice().is_empty() != (n == 0) || s.as_slice().len() != n {
                return Err(fail("length".into()));
            }
            // searches over keys (sorted by construction)
            for q in 0..(2 * n + 1) as u16 {
                let k = K::new(q, 0);
                let want = if q % 2 == 0 && (q as usize) < 2 * n {
                    Ok(q as usize / 2)
                } else {
                    Err((q as usize + 1) / 2)
                };
                let got = [
                    m.binary_search_keys(&k),
                    m.as_slice().binary_search_keys(&k),
                    m.binary_search_by(|p, _| p.cmp(&k)),
                    m.as_slice().binary_search_by(|p, _| p.cmp(&k)),
                    m.binary_search_by_key(&q, |p, _| p.id),
                    m.as_slice().binary_search_by_key(&q, |p, _| p.id),
                    s.binary_search(&k),
                    s.as_slice().binary_search(&k),
                    s.binary_search_by(|p| p.cmp(&k)),
                    s.as_slice().binary_search_by(|p| p.cmp(&k)),
                    s.binary_search_by_key(&q, |p| p.id),
                    s.as_slice().binary_search_by_key(&q, |p| p.id),
                ];
                for (i, x) in got.iter().enumerate() {
                    if *x != want {
                        return Err(fail(format!("search {i} for k{q} gave {x:?}, specified {want:?}")));
                    }
                }
                let pp = (q as usize + 1) / 2;
                if m.partition_point(|p, _| p.id < q) != pp.min(n)
                    || m.as_slice().partition_point(|p, _| p.id < q) != pp.min(n)
                    || s.partition_point(|p| p.id < q) != pp.min(n)
                    || s.as_slice().partition_point(|p| p.id < q) != pp.min(n)
                {
                    return Err(fail(format!("partition point for k{q}")));
                }
            }
            // searches over values when sorted
            if pat.windows(2).all(|w| w[0] <= w[1]) {
                for q in [0, 5, 10, 15, 20, 25] {
                    let r = m.binary_search_by(|_, v| v.v.cmp(&q));
                    let ok = match r {
                        Ok(i) => i < n && pat[i] == q,
                        Err(i) => !pat.contains(&q) && i == pat.partition_point(|x| *x < q),
                    };
                    if !ok {
                        return Err(fail(format!("search for value {q} gave {r:?}")));
                    }
                }
            }
            // splitting
            for at in 0..=n + 1 {
                let sp = catch_unwind(AssertUnwindSafe(|| {
                    let (a, b) = m.as_slice().split_at(at);
                    (slice_items(a), slice_items(b))
                }))
                .ok();
                let want = (at <= n).then(|| (items[..at].to_vec(), items[at..].to_vec()));
                if sp != want {
                    return Err(fail(format!("split_at({at}) gave {sp:?}")));
                }
                let mut c = m.clone();
                let sp = catch_unwind(AssertUnwindSafe(|| {
                    let (a, b) = c.as_mut_slice().split_at_mut(at);
                    for v in b.values_mut() {
                        v.v += 100;
                    }
                    a.len()
                }))
                .ok();
                if sp != (at <= n).then_some(at) {
                    return Err(fail(format!("split_at_mut({at}) gave {sp:?}")));
                }
                for (i, v) in c.values().enumerate() {
                    if v.v != pat[i] + if at <= n && i >= at { 100 } else { 0 } {
                        return Err(fail(format!("split_at_mut({at}): entry {i} is {v:?}")));
                    }
                }
                let sp = catch_unwind(AssertUnwindSafe(|| {
                    let (a, b) = s.as_slice().split_at(at);
                    (a.len(), b.len(), b.first().map(kk))
                }))
                .ok();
                let want = (at <= n).then(|| (at, n - at, s.get_index(at).map(kk)));
                if sp != want {
                    return Err(fail(format!("set split_at({at}) gave {sp:?}")));
                }
            }
            let sl = m.as_slice();
            let first = sl.first().map(|(k, v)| kv(k, v));
            let last = sl.last().map(|(k, v)| kv(k, v));
            if first != items.first().copied() || last != items.last().copied() {
                return Err(fail("first/last".into()));
            }
            match sl.split_first() {
                Some(((k, v), r)) if n > 0 && kv(k, v) == items[0] && slice_items(r) == items[1..] => {}
                None if n == 0 => {}
                _ => return Err(fail("split_first".into())),
            }
            match sl.split_last() {
                Some(((k, v), r)) if n > 0 && kv(k, v) == items[n - 1] && slice_items(r) == items[..n - 1] => {}
                None if n == 0 => {}
                _ => return Err(fail("split_last".into())),
            }
            match s.as_slice().split_first() {
                Some((k, r)) if n > 0 && k.id == 0 && r.len() == n - 1 && r.get_index(0) == s.get_index(1) => {}
                None if n == 0 => {}
                _ => return Err(fail("set split_first".into())),
            }
            match s.as_slice().split_last() {
                Some((k, r)) if n > 0 && Some(k) == s.last() && r.len() == n - 1 && r.first() == if n > 1 { s.first() } else { None } => {}
                None if n == 0 => {}
                _ => return Err(fail("set split_last".into())),
            }
            let mut c = m.clone();
            if let Some(((k, v), r)) = c.as_mut_slice().split_first_mut() {
                if k.id != 0 || r.len() != n - 1 {
                    return Err(fail("split_first_mut".into()));
                }
                v.v += 1;
                if let Some((_, v)) = r.last_mut() {
                    v.v += 2;
                }
            }
            if let Some(((k, v), r)) = c.as_mut_slice().split_last_mut() {
                if k.id as usize != 2 * (n - 1) || r.len() != n - 1 {
                    return Err(fail("split_last_mut".into()));
                }
                v.v += 100;
                if let Some((_, v)) = r.first_mut() {
                    v.v += 200;
                }
            }
            for (i, v) in c.values().enumerate() {
                let mut want = pat[i];
                if i == 0 {
                    want += 1;
                    if n > 1 {
                        want += 200;
                    }
                }
                if i == n - 1 {
                    want += 100;
                    if n > 1 {
                        want += 2;
                    }
                }
                if v.v != want {
                    return Err(fail(format!("mutable splits: entry {i} is {} instead of {want}", v.v)));
                }
            }
            // single positions
            for i in 0..=n {
                let want = items.get(i).copied();
                if sl.get_index(i).map(|(k, v)| kv(k, v)) != want || m.get_index(i).map(|(k, v)| kv(k, v)) != want {
                    return Err(fail(format!("get_index({i})")));
                }
                let mut c = m.clone();
                if c.as_mut_slice().get_index_mut(i).map(|(k, v)| kv(k, v)) != want {
                    return Err(fail(format!("get_index_mut({i})")));
                }
                if i < n {
                    if sl[i].v != pat[i] || m[i].v != pat[i] || m.keys()[i].id != 2 * i as u16 {
                        return Err(fail(format!("indexing by {i}")));
                    }
                    c.as_mut_slice()[i].v = 77;
                    c[i].v += 1;
                    if c.values().map(|v| v.v).enumerate().any(|(j, v)| v != if i == j { 78 } else { pat[j] }) {
                        return Err(fail(format!("writing by index {i}")));
                    }
                    if s.as_slice()[i].id != 2 * i as u16 || s.as_slice().get_index(i) != s.get_index(i) {
                        return Err(fail(format!("set indexing by {i}")));
                    }
                } else if !must_panic(|| sl[i].v) || !must_panic(|| m[i].v) || !must_panic(|| m.keys()[i].id) || !must_panic(|| s.as_slice()[i].id) || s.get_index(i).is_some() {
                    return Err(fail(format!("indexing past the end by {i} did not panic")));
                }
                for j in 0..=n {
                    for k in 0..=n {
                        let mut c = m.clone();
                        let r = c.as_mut_slice().get_disjoint_mut([i, j, k]);
                        let oob = i >= n || j >= n || k >= n;
                        let dup = i == j || j == k || i == k;
                        match r {
                            Ok(r) if !oob && !dup => {
                                let ids: Vec<usize> = r.iter().map(|(k, _)| k.id as usize / 2).collect();
                                if ids != [i, j, k] {
                                    return Err(fail(format!("disjoint access {i},{j},{k} gave {ids:?}")));
                                }
                                for (x, (_, v)) in r.into_iter().enumerate() {
                                    v.v = 900 + x as u32;
                                }
                                if c[i].v != 900 || c[j].v != 901 || c[k].v != 902 {
                                    return Err(fail(format!("disjoint writes {i},{j},{k}")));
                                }
                            }
                            Err(_) if oob || dup => {
                                let r = c.get_disjoint_indices_mut([i, j, k]);
                                if r.is_ok() {
                                    return Err(fail(format!("disjoint access {i},{j},{k} was granted")));
                                }
                            }
                            _ => return Err(fail(format!("disjoint access {i},{j},{k}"))),
                        }
                    }
                }
            }
            // comparison with every slice of one entry less or changed
            let tuples: Vec<(KK, VV)> = (0..n).map(|i| (K::new(i as u16 * 2, 9), V::new(pat[i]))).collect();
            if *sl != tuples[..] || tuples[..] != *sl {
                return Err(fail("slice differs from its own entries".into()));
            }
            let mut h1 = std::collections::hash_map::DefaultHasher::new();
            let mut h2 = std::collections::hash_map::DefaultHasher::new();
            s.as_slice().hash(&mut h1);
            s.clone2(&mut e, &mut g).as_slice().hash(&mut h2);
            if h1.finish() != h2.finish() {
                return Err(fail("equal slices hash differently".into()));
            }
            for i in 0..n {
                let mut t = m.clone();
                t[i].v += 1;
                if *t.as_slice() == *sl || sl.cmp(t.as_slice()) != std::cmp::Ordering::Less || t.as_slice().partial_cmp(sl) != Some(std::cmp::Ordering::Greater) {
                    return Err(fail(format!("changing entry {i} does not order the slices")));
                }
                if *t.as_slice() == tuples[..] {
                    return Err(fail("changed slice equals the old entries".into()));
                }
                if sl[..i] == *sl || sl[..i].cmp(sl) != std::cmp::Ordering::Less {
                    return Err(fail("a proper prefix is not smaller".into()));
                }
                if s.as_slice()[..i] == *s.as_slice() || s.as_slice()[..i].cmp(s.as_slice()) != std::cmp::Ordering::Less {
                    return Err(fail("a proper prefix of a set slice is not smaller".into()));
                }
            }
            if format!("{m:?}") != format!("{{{}}}", (0..n).map(|i| format!("k{}: {}", 2 * i, pat[i])).collect::<Vec<_>>().join(", ")) {
                return Err(fail(format!("shown as {m:?}")));
            }
            if format!("{sl:?}") != format!("[{}]", (0..n).map(|i| format!("(k{}, {})", 2 * i, pat[i])).collect::<Vec<_>>().join(", ")) {
                return Err(fail(format!("slice shown as {sl:?}")));
            }
            ctx.execution();
            ctx.state(3 << 40 | idx);
            Ok(())
        },
    )
}

trait Clone2 {
    fn clone2(&self, e: &mut Exec, g: &mut Glob) -> Set;
}
impl Clone2 for Set {
    fn clone2(&self, e: &mut Exec, g: &mut Glob) -> Set {
        RubySet::from_iter(self.iter().cloned(), e, g).unwrap()
    }
}

fn main() {
    let prop = property_from_args();
    assert_eq!(prop, "P07");
    let tier = tier_from_args();
    let q = tier == Tier::Quick;
    let spaces = vec![
        iter_space("map iterators", vec![0, 1, 2, 3, 4, 5], vec![0, 4], if q { 5 } else { 7 }),
        iter_space("iterators over larger maps", vec![8, 9, 15, 33], vec![0, 15], if q { 3 } else { 5 }),
        set_iter_space(if q { 5 } else { 7 }),
        ranges(if q { 9 } else { 17 }),
        slices(if q { 6 } else { 8 }),
    ];
    Check {
        property: "P07",
        tier,
        rule: "every bounded sequence of iterator steps from both ends, every range and split point, every pattern of values".into(),
        assumptions: vec![],
        spaces,
    }
    .main()
}
