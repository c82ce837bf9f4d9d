//! P16: two hashes (sets) are equal exactly when they have the same contents, however they came about.
use engine::*;
use hashbrown::{HashMap, HashSet};
use mc::env::{Exec, Fault, Glob, K, V, NPROFILES};
use rubymap::{RubyEql, RubyMap, RubySet};
use std::fmt::Write as _;
use std::panic::{AssertUnwindSafe, catch_unwind};

type Key = K<()>;
type Val = V<()>;
const KEYS: usize = 4;
const WAYS: usize = 7;
const WAY: [&str; WAYS] = ["in order", "backwards", "another entry shifted out", "another entry swapped out", "from a list with repetitions", "cloned", "with much room"];

/// Contents: for each of four keys absent, 0 or 1; and `pad` further keys.
fn contents(mut c: usize, pad: usize) -> Vec<(u16, u32)> {
    let mut v = vec![];
    for k in 0..KEYS {
        if c % 3 > 0 {
            v.push((k as u16, (c % 3 - 1) as u32));
        }
        c /= 3;
    }
    v.extend((0..pad).map(|i| (20 + i as u16, i as u32)));
    v
}
fn order(c: &[(u16, u32)], way: usize) -> Vec<(u16, u32)> {
    let mut v = c.to_vec();
    if way == 1 {
        v.reverse();
    }
    v
}

type M = RubyMap<Key, Val, Exec, Glob, Fault>;
type S = RubySet<Key, Exec, Glob, Fault>;
type HM = HashMap<Key, Val, Exec, Glob, Fault>;
type HS = HashSet<Key, Exec, Glob, Fault>;
type PM = RubyMap<u16, u32>;
type PS = RubySet<u16>;
type PHM = HashMap<u16, u32, (), (), ()>;
type PHS = HashSet<u16, (), (), ()>;

/// Build one container of the given type in the given way.
macro_rules! build {
    ($t:ty, $c:expr, $way:expr, $e:expr, $g:expr, $item:expr, $key:expr, $put:expr, $del:expr) => {{
        let items = order($c, $way);
        let mut m: $t = if $way == 6 { <$t>::with_capacity(40) } else { <$t>::new() };
        match $way {
            2 | 3 => {
                ($put)(&mut m, 15u16, 9u32, &mut *$e, &mut *$g);
                for (k, v) in &items {
                    ($put)(&mut m, *k, *v, &mut *$e, &mut *$g);
                }
                ($del)(&mut m, 15u16, $way == 3, &mut *$e, &mut *$g);
            }
            4 => {
                let twice = items.iter().map(|(k, v)| (*k, v + 1)).chain(items.iter().copied());
                m = <$t>::from_iter(twice.map(|(k, v)| ($item)(k, v)), &mut *$e, &mut *$g).unwrap();
            }
            _ => {
                for (k, v) in &items {
                    ($put)(&mut m, *k, *v, &mut *$e, &mut *$g);
                }
            }
        }
        if $way == 5 { m.clone() } else { m }
    }};
}
fn key(k: u16) -> Key {
    K::new(k, 0)
}
fn val(v: u32) -> Val {
    V::new(v)
}

struct All {
    m: M,
    s: S,
    hm: HM,
    hs: HS,
    pm: PM,
    ps: PS,
    phm: PHM,
    phs: PHS,
}
fn all(c: &[(u16, u32)], way: usize, e: &mut Exec, g: &mut Glob) -> All {
    let (u, w) = (&mut (), &mut ());
    All {
        m: build!(M, c, way, e, g, |k, v| (key(k), val(v)), key, |m: &mut M, k, v, e: &mut Exec, g: &mut Glob| { m.insert(key(k), val(v), e, g).unwrap(); }, |m: &mut M, k, sw, e: &mut Exec, g: &mut Glob| { if sw { m.swap_remove(&key(k), e, g).unwrap() } else { m.shift_remove(&key(k), e, g).unwrap() }; }),
        s: build!(S, c, way, e, g, |k, _| key(k), key, |m: &mut S, k, _, e: &mut Exec, g: &mut Glob| { m.insert(key(k), e, g).unwrap(); }, |m: &mut S, k, sw, e: &mut Exec, g: &mut Glob| { if sw { m.swap_remove(&key(k), e, g).unwrap() } else { m.shift_remove(&key(k), e, g).unwrap() }; }),
        hm: build!(HM, c, way, e, g, |k, v| (key(k), val(v)), key, |m: &mut HM, k, v, e: &mut Exec, g: &mut Glob| { m.insert(key(k), val(v), e, g).unwrap(); }, |m: &mut HM, k, _, e: &mut Exec, g: &mut Glob| { m.remove(&key(k), e, g).unwrap(); }),
        hs: build!(HS, c, way, e, g, |k, _| key(k), key, |m: &mut HS, k, _, e: &mut Exec, g: &mut Glob| { m.insert(key(k), e, g).unwrap(); }, |m: &mut HS, k, _, e: &mut Exec, g: &mut Glob| { m.remove(&key(k), e, g).unwrap(); }),
        pm: build!(PM, c, way, u, w, |k, v| (k, v), key, |m: &mut PM, k, v, e: &mut (), g: &mut ()| { m.insert(k, v, e, g).unwrap(); }, |m: &mut PM, k, sw, e: &mut (), g: &mut ()| { if sw { m.swap_remove(&k, e, g).unwrap() } else { m.shift_remove(&k, e, g).unwrap() }; }),
        ps: build!(PS, c, way, u, w, |k, _| k, key, |m: &mut PS, k, _, e: &mut (), g: &mut ()| { m.insert(k, e, g).unwrap(); }, |m: &mut PS, k, sw, e: &mut (), g: &mut ()| { if sw { m.swap_remove(&k, e, g).unwrap() } else { m.shift_remove(&k, e, g).unwrap() }; }),
        phm: build!(PHM, c, way, u, w, |k, v| (k, v), key, |m: &mut PHM, k, v, e: &mut (), g: &mut ()| { m.insert(k, v, e, g).unwrap(); }, |m: &mut PHM, k, _, e: &mut (), g: &mut ()| { m.remove(&k, e, g).unwrap(); }),
        phs: build!(PHS, c, way, u, w, |k, _| k, key, |m: &mut PHS, k, _, e: &mut (), g: &mut ()| { m.insert(k, e, g).unwrap(); }, |m: &mut PHS, k, _, e: &mut (), g: &mut ()| { m.remove(&k, e, g).unwrap(); }),
    }
}

/// Ask for equality, then with each callback failing in turn.
fn ask(what: &str, want: bool, profile: usize, f: impl Fn(&mut Exec, &mut Glob) -> Result<bool, Fault>) -> CaseResult {
    let mut e = Exec::new(profile);
    let mut g = Glob::default();
    let got = f(&mut e, &mut g);
    if got != Ok(want) {
        return Err(format!("{what}: answered {got:?} instead of {want}"));
    }
    let calls = e.calls;
    for at in 1..=calls {
        let mut e = Exec::new(profile);
        e.fail_at = at;
        let got = f(&mut e, &mut g);
        if got != Err(Fault(at)) {
            return Err(format!("{what}: with callback {at} of {calls} failing answered {got:?}"));
        }
        if e.calls != at {
            return Err(format!("{what}: user code was called again after callback {at} failed"));
        }
    }
    Ok(())
}

fn pairs(pads: Vec<usize>, profiles: Vec<usize>) -> Space<'static> {
    let n = 3usize.pow(KEYS as u32);
    Space::new(
        "pairs of containers",
        format!("all ordered pairs of the {n} contents over {KEYS} keys and 2 values, each built in {WAYS} ways, with {pads:?} further common entries, {} hash profiles: equality asked in both directions, also with each callback failing in turn", profiles.len()),
        (n * n * WAYS * WAYS * pads.len() * profiles.len()) as u64,
        move |i, ctx| {
            let mut r = Radix(i);
            let (ca, cb) = (r.take(n), r.take(n));
            let (wa, wb) = (r.take(WAYS), r.take(WAYS));
            let pad = pads[r.take(pads.len())];
            let p = profiles[r.take(profiles.len())];
            let (a, b) = (contents(ca, pad), contents(cb, pad));
            let eq = a == b;
            let ks = |c: &[(u16, u32)]| c.iter().map(|x| x.0).collect::<Vec<_>>();
            let keq = ks(&a) == ks(&b);
            let mut e = Exec::new(p);
            let mut g = Glob::default();
            let x = all(&a, wa, &mut e, &mut g);
            let y = all(&b, wb, &mut e, &mut g);
            ctx.step(|| format!("{a:?} built {} and {b:?} built {}: {eq}", WAY[wa], WAY[wb]));
            ask("hash eql", eq, p, |e, g| x.m.eql(&y.m, e, g))?;
            ask("set eql", keq, p, |e, g| x.s.eql(&y.s, e, g))?;
            ask("hash map eql", eq, p, |e, g| x.hm.eql(&y.hm, e, g))?;
            ask("hash set eql", keq, p, |e, g| x.hs.eql(&y.hs, e, g))?;
            for (what, got, want) in [("hash ==", x.pm == y.pm, eq), ("set ==", x.ps == y.ps, keq), ("hash map ==", x.phm == y.phm, eq), ("hash set ==", x.phs == y.phs, keq)] {
                if got != want {
                    return Err(format!("{what} answered {got} for {a:?} built {} and {b:?} built {}", WAY[wa], WAY[wb]));
                }
            }
            ctx.state(mix(i));
            ctx.execution();
            Ok(())
        },
    )
}

/// One container: indexing by key, printing, and being equal to itself and its clone.
fn single(pads: Vec<usize>) -> Space<'static> {
    let n = 3usize.pow(KEYS as u32);
    Space::new(
        "single containers",
        format!("each content built in {WAYS} ways with {pads:?} further entries: indexing by every key, printed form, equality with itself and with its copy"),
        (n * WAYS * pads.len()) as u64,
        move |i, ctx| {
            let mut r = Radix(i);
            let c = r.take(n);
            let way = r.take(WAYS);
            let pad = pads[r.take(pads.len())];
            let c = contents(c, pad);
            let mut e = Exec::new(0);
            let mut g = Glob::default();
            let x = all(&c, way, &mut e, &mut g);
            for k in 0..60u16 {
                let want = c.iter().find(|q| q.0 == k).map(|q| q.1);
                let got = catch_unwind(AssertUnwindSafe(|| x.pm[&k])).ok();
                let got2 = catch_unwind(AssertUnwindSafe(|| x.phm[&k])).ok();
                if got != want || got2 != want {
                    return Err(format!("indexing {c:?} by {k} gives {got:?} and {got2:?} instead of {want:?}"));
                }
            }
            // way 3 moves the last entry to the front
            let mut o = order(&c, way);
            if way == 3 && !o.is_empty() {
                o.rotate_right(1);
            }
            let mut want = String::from("{");
            for (j, (k, v)) in o.iter().enumerate() {
                write!(want, "{}{k}: {v}", if j > 0 { ", " } else { "" }).unwrap();
            }
            want.push('}');
            if format!("{:?}", x.pm) != want {
                return Err(format!("the hash prints as {:?} instead of {want}", x.pm));
            }
            let sw = format!("{:?}", x.ps);
            let want = format!("{{{}}}", o.iter().map(|q| q.0.to_string()).collect::<Vec<_>>().join(", "));
            if sw != want {
                return Err(format!("the set prints as {sw} instead of {want}"));
            }
            ask("eql itself", true, 0, |e, g| x.m.eql(&x.m, e, g))?;
            ask("eql its copy", true, 0, |e, g| x.m.eql(&x.m.clone(), e, g))?;
            ask("set eql its copy", true, 0, |e, g| x.s.eql(&x.s.clone(), e, g))?;
            ctx.step(|| format!("{c:?} {way}"));
            ctx.state(mix(i + 0x1000_0000));
            ctx.execution();
            Ok(())
        },
    )
}

/// Arrays of pairs turned into containers.
fn arrays() -> Space<'static> {
    Space::new("arrays", "all arrays of up to 4 pairs over 3 keys and 2 values: the container has each key once, at its first place, with its last value", 6u64.pow(4) * 5, |i, ctx| {
        let mut r = Radix(i);
        let len = r.take(5);
        let items: Vec<(u16, u32)> = (0..4).map(|_| { let x = r.take(6); ((x % 3) as u16, (x / 3) as u32) }).collect();
        let mut want: Vec<(u16, u32)> = vec![];
        for (k, v) in &items[..len] {
            match want.iter_mut().find(|q| q.0 == *k) {
                Some(q) => q.1 = *v,
                None => want.push((*k, *v)),
            }
        }
        let (u, w) = (&mut (), &mut ());
        macro_rules! n {
            ($n:expr) => {{
                let a: [(u16, u32); $n] = items[..$n].try_into().unwrap();
                (
                    PM::from_ary(a, u, w).unwrap(),
                    PS::from_ary(a.map(|x| x.0), u, w).unwrap(),
                    PHM::from_ary(a, u, w).unwrap(),
                    PHS::from_ary(a.map(|x| x.0), u, w).unwrap(),
                )
            }};
        }
        let (m, s, hm, hs) = match len {
            0 => n!(0),
            1 => n!(1),
            2 => n!(2),
            3 => n!(3),
            _ => n!(4),
        };
        let got: Vec<(u16, u32)> = m.iter().map(|(k, v)| (*k, *v)).collect();
        let gots: Vec<u16> = s.iter().copied().collect();
        let mut goth: Vec<(u16, u32)> = hm.iter().map(|(k, v)| (*k, *v)).collect();
        let mut goths: Vec<u16> = hs.iter().copied().collect();
        goth.sort();
        goths.sort();
        let mut sorted = want.clone();
        sorted.sort();
        let keys = |v: &[(u16, u32)]| v.iter().map(|q| q.0).collect::<Vec<_>>();
        if got != want || gots != keys(&want) || goth != sorted || goths != keys(&sorted) {
            return Err(format!("{:?} became {got:?}, {gots:?}, {goth:?}, {goths:?}", &items[..len]));
        }
        ctx.step(|| format!("{:?}", &items[..len]));
        ctx.state(mix(i + 0x2000_0000));
        ctx.execution();
        Ok(())
    })
}

pub fn check(tier: Tier) -> Check<'static> {
    let th = tier == Tier::Thorough;
    Check {
        property: "P16",
        tier,
        rule: "two hashes, or two sets, are equal exactly when they have equal keys with equal values, asked either way round, however and in whatever order each was built; a failing callback is reported as such; indexing finds exactly the present keys; the printed form lists the entries in order".into(),
        assumptions: vec!["the default hash builder, whose keys differ from run to run, is used; no verdict depends on them".into()],
        spaces: vec![
            single(vec![0, 4, 5, 8, 30]),
            arrays(),
            pairs(if th { vec![0, 5, 7, 30] } else { vec![0, 7] }, if th { (0..NPROFILES).collect() } else { vec![0, 1] }),
        ],
    }
}
