//! P17: the key traits: equality and hashing of all provided key types agree, and failures pass through.
use engine::*;
use hashbrown::HashMap;
use rubymap::RubyMap;
use ruby_traits::*;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};

/// A hasher that keeps everything it was fed.
#[derive(Default, PartialEq, Eq, Clone, Debug)]
struct Feed(Vec<u8>);
impl Hasher for Feed {
    fn finish(&self) -> u64 {
        let mut f = Fp::default();
        f.add_bytes(&self.0);
        f.0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b);
    }
}
/// An interpreter stand-in: counts and can fail at a chosen call.
#[derive(Default, Debug)]
struct Vm {
    calls: Vec<(u8, u8)>,
    fail_at: usize,
}
#[derive(Default)]
struct Gl(usize);
#[derive(Debug, PartialEq, Clone, Copy)]
struct Failed(usize);

fn feed<T: ?Sized + RubyHash<Vm, Gl, Failed>>(t: &T) -> Feed {
    let mut f = Feed::default();
    t.ruby_hash(&mut f, &mut Vm::default(), &mut Gl(0)).unwrap();
    f
}
fn same<T: ?Sized + RubyEql<Vm, Gl, Failed>>(a: &T, b: &T) -> bool {
    a.eql(b, &mut Vm::default(), &mut Gl(0)).unwrap()
}

/// All pairs of some values of a type that cannot fail.
fn pairs<T>(name: &str, all: Vec<T>) -> Space<'static>
where
    T: RubyEql<Vm, Gl, Failed> + RubyHash<Vm, Gl, Failed> + PartialEq + Hash + Clone + Debug + 'static,
    for<'a> &'a T: RubyEql<Vm, Gl, Failed> + RubyHash<Vm, Gl, Failed>,
    for<'a> &'a mut T: RubyEql<Vm, Gl, Failed> + RubyHash<Vm, Gl, Failed>,
{
    let n = all.len();
    Space::new(
        format!("pairs of {name}"),
        format!("all ordered pairs of {n} values, by value and by reference, alone, in options, in lists, as keys of the three hash containers"),
        (n * n) as u64,
        move |i, ctx| {
            let mut r = Radix(i);
            let (a, b) = (all[r.take(n)].clone(), all[r.take(n)].clone());
            let eq = a == b;
            let (mut a2, mut b2) = (a.clone(), b.clone());
            let bad = |what: &str| Err(format!("{a:?} and {b:?} {what}"));
            if same(&a, &b) != eq || same(&b, &a) != eq {
                return bad(if eq { "are equal but not eql" } else { "are eql but not equal" });
            }
            if same(&&a, &&b) != eq || same(&&mut a2, &&mut b2) != eq {
                return bad("are compared differently by reference");
            }
            if (feed(&a) == feed(&b)) != eq {
                return bad(if eq { "are equal but hash differently" } else { "differ but hash alike" });
            }
            if feed(&a) != feed(&&a) || feed(&a) != feed(&&mut a2) {
                return bad("hash differently by reference");
            }
            if Equivalent::<T, Vm, Gl, Failed>::equivalent(&a, &b, &mut Vm::default(), &mut Gl(0)).unwrap() != eq {
                return bad("are not equivalent exactly when equal");
            }
            let (oa, ob) = (Some(a.clone()), Some(b.clone()));
            if same(&oa, &ob) != eq || same(&oa, &None) || same(&None, &ob) || !same(&None::<T>, &None) {
                return bad("are compared wrongly inside options");
            }
            if (feed(&oa) == feed(&ob)) != eq || feed(&None::<T>) != feed(&None::<T>) {
                return bad("hash wrongly inside options");
            }
            for (x, y, want) in [
                (vec![a.clone()], vec![b.clone()], eq),
                (vec![a.clone(), b.clone()], vec![b.clone(), a.clone()], eq),
                (vec![a.clone(), a.clone()], vec![a.clone()], false),
                (vec![], vec![b.clone()], false),
                (vec![a.clone(), b.clone(), a.clone()], vec![a.clone(), b.clone(), a.clone()], true),
            ] {
                if same(&x, &y) != want || same(&y, &x) != want || same(&x[..], &y[..]) != want {
                    return bad("are compared wrongly inside lists");
                }
                if want && feed(&x) != feed(&y) {
                    return bad("hash wrongly inside lists");
                }
            }
            // as keys
            let (mut vm, mut gl) = (Vm::default(), Gl(0));
            let mut m: RubyMap<T, u8, Vm, Gl, Failed> = RubyMap::new();
            m.insert(a.clone(), 1, &mut vm, &mut gl).unwrap();
            m.insert(b.clone(), 2, &mut vm, &mut gl).unwrap();
            let mut h: HashMap<T, u8, Vm, Gl, Failed> = HashMap::new();
            h.insert(a.clone(), 1, &mut vm, &mut gl).unwrap();
            h.insert(b.clone(), 2, &mut vm, &mut gl).unwrap();
            let want = if eq { Some(2) } else { Some(1) };
            if m.len() != 2 - eq as usize || m.get(&a, &mut vm, &mut gl).unwrap().copied() != want || h.len() != m.len() || h.get(&a, &mut vm, &mut gl).unwrap().copied() != want {
                return bad("are kept apart wrongly as keys");
            }
            ctx.step(|| format!("{a:?} / {b:?}: {eq}"));
            ctx.state(mix(i) ^ mix(std::any::type_name::<T>().len() as u64));
            ctx.execution();
            Ok(())
        },
    )
}

/// A key that may fail: calls are recorded, and the one chosen fails.
#[derive(Clone, Copy, PartialEq, Debug)]
struct K(u8);
impl RubyEql<Vm, Gl, Failed> for K {
    fn eql(&self, o: &Self, e: &mut Vm, g: &mut Gl) -> Result<bool, Failed> {
        e.calls.push((self.0, o.0));
        g.0 += 1;
        if e.calls.len() == e.fail_at {
            return Err(Failed(e.fail_at));
        }
        // values 2 and 3 are eql although they are different objects
        Ok((self.0 | 1 == 3 && o.0 | 1 == 3) || self.0 == o.0)
    }
}
impl RubyHash<Vm, Gl, Failed> for K {
    fn ruby_hash<H: Hasher>(&self, h: &mut H, e: &mut Vm, g: &mut Gl) -> Result<(), Failed> {
        e.calls.push((self.0, 99));
        g.0 += 1;
        if e.calls.len() == e.fail_at {
            return Err(Failed(e.fail_at));
        }
        h.write_u8(if self.0 | 1 == 3 { 3 } else { self.0 });
        Ok(())
    }
}
fn nth_list(mut i: usize, max: usize, vals: usize) -> Vec<K> {
    for len in 0..=max {
        let n = vals.pow(len as u32);
        if i < n {
            return (0..len)
                .map(|_| {
                    let k = K((i % vals) as u8);
                    i /= vals;
                    k
                })
                .collect();
        }
        i -= n;
    }
    unreachable!()
}
fn lists(max: usize, vals: usize) -> Space<'static> {
    let n: usize = (0..=max).map(|l| vals.pow(l as u32)).sum();
    Space::new(
        format!("lists of failing keys up to {max}"),
        format!("all pairs of lists of up to {max} elements of {vals} values, as vector, as slice, inside options and inside lists, with each comparison or hash failing in turn: comparisons go from the front, stop at the first difference or failure, report it, and are not made at all between lists of different length"),
        (n * n) as u64,
        move |i, ctx| {
            let mut r = Radix(i);
            let (a, b) = (nth_list(r.take(n), max, vals), nth_list(r.take(n), max, vals));
            for form in 0..4 {
                let run = |fail_at: usize| -> (Result<bool, Failed>, Vm, Gl) {
                    let mut vm = Vm { fail_at, ..Default::default() };
                    let mut gl = Gl(0);
                    let r = match form {
                        0 => a.eql(&b, &mut vm, &mut gl),
                        1 => a[..].eql(&b[..], &mut vm, &mut gl),
                        2 => Some(a.clone()).eql(&Some(b.clone()), &mut vm, &mut gl),
                        _ => vec![a.clone(), vec![]].eql(&vec![b.clone(), vec![]], &mut vm, &mut gl),
                    };
                    (r, vm, gl)
                };
                let mut want_calls = vec![];
                let mut want = a.len() == b.len();
                if want {
                    for (x, y) in a.iter().zip(&b) {
                        want_calls.push((x.0, y.0));
                        if !((x.0 | 1 == 3 && y.0 | 1 == 3) || x == y) {
                            want = false;
                            break;
                        }
                    }
                }
                for at in 0..=want_calls.len() {
                    let (got, vm, gl) = run(at);
                    let (w, calls) = if at == 0 { (Ok(want), &want_calls[..]) } else { (Err(Failed(at)), &want_calls[..at]) };
                    if got != w {
                        return Err(format!("comparing {a:?} with {b:?} (form {form}) with comparison {at} failing gives {got:?} instead of {w:?}"));
                    }
                    // the order of the two operands of one comparison is not prescribed
                    let norm = |c: &[(u8, u8)]| c.iter().map(|(x, y)| (*x.min(y), *x.max(y))).collect::<Vec<_>>();
                    if norm(&vm.calls) != norm(calls) || gl.0 != calls.len() {
                        return Err(format!("comparing {a:?} with {b:?} (form {form}) made the comparisons {:?} instead of {calls:?}", vm.calls));
                    }
                    ctx.step(|| format!("{a:?} eql {b:?}, failing {at}: {got:?}"));
                }
                // hashing
                let hash = |l: &Vec<K>, fail_at: usize| -> (Result<(), Failed>, Feed, Vm) {
                    let mut vm = Vm { fail_at, ..Default::default() };
                    let mut f = Feed::default();
                    let r = match form {
                        0 | 1 => l.ruby_hash(&mut f, &mut vm, &mut Gl(0)),
                        2 => Some(l.clone()).ruby_hash(&mut f, &mut vm, &mut Gl(0)),
                        _ => vec![l.clone(), vec![]].ruby_hash(&mut f, &mut vm, &mut Gl(0)),
                    };
                    (r, f, vm)
                };
                for at in 0..=a.len() {
                    let (got, _, vm) = hash(&a, at);
                    let w = if at == 0 { Ok(()) } else { Err(Failed(at)) };
                    let calls = if at == 0 { a.len() } else { at };
                    if got != w || vm.calls.len() != calls || vm.calls.iter().zip(&a).any(|(c, k)| c.0 != k.0) {
                        return Err(format!("hashing {a:?} (form {form}) with element {at} failing gives {got:?} after {:?}", vm.calls));
                    }
                }
                if want && hash(&a, 0).1 != hash(&b, 0).1 {
                    return Err(format!("{a:?} and {b:?} are eql but hash differently (form {form})"));
                }
            }
            ctx.state(mix(i));
            ctx.execution();
            Ok(())
        },
    )
}

/// Symbols.
#[derive(Clone, Copy, PartialEq, Debug)]
struct Sym(u8);
impl RubySymEql for Sym {
    fn eql(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
struct Named(Sym);
impl std::borrow::Borrow<Sym> for Named {
    fn borrow(&self) -> &Sym {
        &self.0
    }
}
fn symbols() -> Space<'static> {
    Space::new("symbols", "all pairs of 40 symbols, directly and through a key that lends its symbol", 1600, |i, ctx| {
        let mut r = Radix(i);
        let (a, b) = (Sym(r.take(40) as u8), Sym(r.take(40) as u8));
        if SymEquivalent::<Sym>::equivalent(&a, &b) != (a == b) || SymEquivalent::<Named>::equivalent(&a, &Named(b)) != (a == b) {
            return Err(format!("{a:?} and {b:?} are matched wrongly"));
        }
        ctx.step(|| format!("{a:?} {b:?}"));
        ctx.state(mix(i + 7777));
        ctx.execution();
        Ok(())
    })
}
/// String keys found by borrowed text and the other way round.
fn text(words: Vec<String>) -> Space<'static> {
    let n = words.len();
    Space::new(
        "text keys",
        format!("all pairs of {n} texts: owned keys looked up by borrowed text in both maps"),
        (n * n) as u64,
        move |i, ctx| {
            let mut r = Radix(i);
            let (a, b) = (&words[r.take(n)], &words[r.take(n)]);
            let eq = a == b;
            let (mut vm, mut gl) = (Vm::default(), Gl(0));
            if feed::<str>(a) != feed::<String>(a) || feed::<&str>(&a.as_str()) != feed::<String>(a) {
                return Err(format!("{a:?} hashes differently as text and as string"));
            }
            if (feed::<str>(a) == feed::<str>(b)) != eq || same::<str>(a, b) != eq {
                return Err(format!("{a:?} and {b:?} are matched wrongly as text"));
            }
            if Equivalent::<String, Vm, Gl, Failed>::equivalent(a.as_str(), b, &mut vm, &mut gl).unwrap() != eq {
                return Err(format!("{a:?} and {b:?} are matched wrongly as text and string"));
            }
            let mut m: RubyMap<String, usize, Vm, Gl, Failed> = RubyMap::new();
            let mut h: HashMap<String, usize, Vm, Gl, Failed> = HashMap::new();
            for k in 0..(i % 11) as usize {
                m.insert(format!("filler {k}"), k, &mut vm, &mut gl).unwrap();
            }
            m.insert(a.clone(), 500, &mut vm, &mut gl).unwrap();
            h.insert(a.clone(), 500, &mut vm, &mut gl).unwrap();
            let want = if eq { Some(500) } else { None };
            if m.get(b.as_str(), &mut vm, &mut gl).unwrap().copied() != want || h.get(b.as_str(), &mut vm, &mut gl).unwrap().copied() != want {
                return Err(format!("{b:?} is looked up wrongly in a map with {a:?}"));
            }
            ctx.step(|| format!("{a:?} {b:?}"));
            ctx.state(mix(i + 99999));
            ctx.execution();
            Ok(())
        },
    )
}

pub fn check(tier: Tier) -> Check<'static> {
    let th = tier == Tier::Thorough;
    let mut words = vec![String::new()];
    for len in 1..=(if th { 4 } else { 3 }) {
        let abc = ['a', 'b', '\0', 'é', '\u{ff}', '𝕏'];
        for mut i in 0..abc.len().pow(len) {
            let mut s = String::new();
            for _ in 0..len {
                s.push(abc[i % abc.len()]);
                i /= abc.len();
            }
            words.push(s);
        }
    }
    macro_rules! ints {
        ($t:ty) => {{
            let mut v: Vec<$t> = vec![];
            for b in 0..<$t>::BITS {
                let x = (1 as $t).wrapping_shl(b);
                v.extend([x, x.wrapping_sub(1), x.wrapping_neg(), x.wrapping_add(1)]);
            }
            v.sort();
            v.dedup();
            pairs(stringify!($t), v)
        }};
    }
    let mut chars: Vec<char> = (0..0x110000u32).step_by(if th { 257 } else { 2579 }).filter_map(char::from_u32).collect();
    chars.extend(['\0', 'a', 'b', '\u{7f}', '\u{80}', '\u{ff}', '\u{100}', '\u{10ffff}']);
    let spaces = vec![
        pairs("()", vec![()]),
        pairs("bool", vec![false, true]),
        pairs("char", chars),
        pairs("i8", (i8::MIN..=i8::MAX).collect()),
        pairs("u8", (u8::MIN..=u8::MAX).collect()),
        ints!(i16),
        ints!(u16),
        ints!(i32),
        ints!(u32),
        ints!(i64),
        ints!(u64),
        ints!(isize),
        ints!(usize),
        pairs("String", words.clone()),
        text(words),
        symbols(),
        lists(3, 4),
        lists(if th { 5 } else { 4 }, 3),
    ];
    Check {
        property: "P17",
        tier,
        rule: "for every provided key type, eql is exactly equality, equal keys feed the hasher alike and different simple keys differently, by value, by reference and by borrowed form; lists and options compare and hash element by element from the front, stop at the first difference or failure and report it".into(),
        assumptions: vec![],
        spaces,
    }
}
