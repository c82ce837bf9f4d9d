//! P15: machine code that reads a hash through the layout it was told sees what the hash shows.
use engine::*;
use rubymap::{EntriesLayout, RubyEql, RubyHash, RubyMap, entries_layout};
use std::hash::{BuildHasher, Hasher};
use std::num::{NonZeroU64, NonZeroU8};

/// A key or value of some shape, made from a number.
pub trait Shape: Copy + PartialEq + std::fmt::Debug + 'static {
    fn of(i: usize) -> Self;
}
macro_rules! shapes {
    ($($name:ident($inner:ty) = $mk:expr;)*) => {
        $(
            #[derive(Clone, Copy, PartialEq, Debug)]
            pub struct $name($inner);
            impl Shape for $name {
                fn of(i: usize) -> Self {
                    $name(($mk)(i))
                }
            }
            impl<E, G, R> RubyHash<E, G, R> for $name {
                fn ruby_hash<H: Hasher>(&self, h: &mut H, _: &mut E, _: &mut G) -> Result<(), R> {
                    h.write(format!("{:?}", self).as_bytes());
                    Ok(())
                }
            }
            impl<E, G, R> RubyEql<E, G, R> for $name {
                fn eql(&self, o: &Self, _: &mut E, _: &mut G) -> Result<bool, R> {
                    Ok(self == o)
                }
            }
        )*
    };
}
shapes! {
    Unit(()) = |_| ();
    Byte(u8) = |i| i as u8;
    Half(u16) = |i| i as u16 * 3 + 1;
    Int(u32) = |i| i as u32 * 7 + 5;
    Word(u64) = |i| i as u64 * 0x1_0000_0001 + 9;
    Full(NonZeroU64) = |i| NonZeroU64::new(i as u64 * 8 + 1).unwrap();
    Maybe(Option<NonZeroU64>) = |i| NonZeroU64::new(i as u64 * 8 + 1);
    Small(Option<NonZeroU8>) = |i| NonZeroU8::new(i as u8);
    Flag(Option<bool>) = |i| [None, Some(false), Some(true)][i % 3];
    Letter(char) = |i| char::from_u32(0x100 + i as u32).unwrap();
    Pair((u64, u8)) = |i: usize| (i as u64, !i as u8);
    Three([u64; 3]) = |i| [i as u64, !(i as u64), 77];
    Odd([u8; 5]) = |i: usize| [i as u8, 1, 2, 3, !i as u8];
    Both(u128) = |i| (i as u128) << 70 | 3;
}
/// How many different keys the shape has.
fn universe<K: Shape>() -> usize {
    let mut seen: Vec<K> = vec![];
    for i in 0..60 {
        let k = K::of(i);
        if seen.contains(&k) {
            break;
        }
        seen.push(k);
    }
    seen.len()
}

/// Hash builders of different sizes, all with the same hash function.
#[derive(Clone, Default)]
pub struct S0;
#[derive(Clone, Default)]
pub struct S1(#[allow(dead_code)] u8);
#[derive(Clone, Default)]
pub struct S3(#[allow(dead_code)] [u64; 3]);
pub struct Fnv(u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        mix(self.0)
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3);
        }
    }
}
macro_rules! builder {
    ($($t:ty),*) => {
        $(impl BuildHasher for $t {
            type Hasher = Fnv;
            fn build_hasher(&self) -> Fnv {
                Fnv(0xcbf29ce484222325)
            }
        })*
    };
}
builder!(S0, S1, S3);

/// Read the map as generated code does: by offsets only.
fn raw<K: Copy, V: Copy>(map: *const u8, lay: &EntriesLayout, want: usize) -> Result<Vec<(K, V)>, String> {
    unsafe {
        let len = map.add(lay.len_offset).cast::<usize>().read_unaligned();
        if len != want {
            return Err(format!("the length read through the layout is {len}, the map has {want} entries"));
        }
        let base = map.add(lay.ptr_offset).cast::<*const u8>().read_unaligned();
        Ok((0..len)
            .map(|i| {
                let entry = base.add(i * lay.bucket_size);
                (
                    entry.add(lay.key_offset).cast::<K>().read_unaligned(),
                    entry.add(lay.value_offset).cast::<V>().read_unaligned(),
                )
            })
            .collect())
    }
}

const STEPS: usize = 14;
fn case<K, V, E: Default, G: Default, R: std::fmt::Debug, S>(idx: u64, ns: usize, ctx: &mut Ctx) -> CaseResult
where
    K: Shape + RubyHash<E, G, R> + RubyEql<E, G, R>,
    V: Shape,
    S: BuildHasher + Default + Clone,
{
    let lay = match entries_layout::<K, V, E, G, R, S>() {
        Some(l) => l,
        None => return Ok(()),
    };
    let (mut e, mut g) = (E::default(), G::default());
    let mut r = Radix(idx);
    let n = r.take(ns + 1).min(universe::<K>());
    let made = r.take(2);
    let steps = [r.take(STEPS), r.take(STEPS)];
    let mut m: RubyMap<K, V, E, G, R, S> = if made == 0 { RubyMap::default() } else { RubyMap::with_capacity_and_hasher(n, S::default()) };
    for i in 0..n {
        m.insert(K::of(i), V::of(i + 1), &mut e, &mut g).unwrap();
    }
    let see = |m: &RubyMap<K, V, E, G, R, S>, what: &str| -> CaseResult {
        if lay.bucket_size < std::mem::size_of::<K>() + std::mem::size_of::<V>() {
            return Err("the entry size told is too small for a key and a value".into());
        }
        let got = raw::<K, V>(m as *const _ as *const u8, &lay, m.len())?;
        let want: Vec<(K, V)> = (0..m.len()).map(|i| m.get_index(i).map(|(k, v)| (*k, *v)).unwrap()).collect();
        if got != want {
            return Err(format!("{what}: entries read through the layout are {got:?}, the map shows {want:?}"));
        }
        Ok(())
    };
    see(&m, "after filling")?;
    for s in steps {
        let len = m.len();
        match s {
            0 => {}
            1 => drop(m.shift_remove_index(0, &mut e, &mut g)),
            2 => drop(m.swap_remove_index(len / 2, &mut e, &mut g)),
            3 => m.truncate(len / 2, &mut e, &mut g).unwrap(),
            4 => m.shrink_to_fit(),
            5 => m.reserve(40),
            6 => m.clear(),
            7 => m = m.clone(),
            8 => {
                let mut o = RubyMap::default();
                o.clone_from(&m);
                m = o;
            }
            9 => m.reverse(),
            10 => drop(m.split_off(len / 2, &mut e, &mut g).unwrap()),
            11 => m.retain(|_, _| true),
            12 => {
                for i in 0..universe::<K>() {
                    m.insert(K::of(i), V::of(i + 2), &mut e, &mut g).unwrap();
                }
            }
            _ => {
                // the map lives somewhere else now
                let b = Box::new(m);
                see(&b, "moved to the heap")?;
                m = *b;
            }
        }
        see(&m, "after a step")?;
    }
    ctx.step(|| format!("{n} entries, steps {steps:?}: {lay:?}"));
    ctx.state(mix(idx) ^ mix(lay.key_offset as u64 + 100 * lay.bucket_size as u64));
    ctx.execution();
    Ok(())
}

pub fn check(tier: Tier) -> Check<'static> {
    let ns = if tier == Tier::Thorough { 80 } else { 40 };
    let mut spaces: Vec<Space<'static>> = vec![];
    macro_rules! one {
        ($k:ty, $v:ty, $e:ty, $g:ty, $r:ty, $s:ty) => {
            spaces.push(Space::new(
                concat!(stringify!($k), " to ", stringify!($v), ", ", stringify!($e), "/", stringify!($g), ", ", stringify!($s)),
                format!("sizes 0..={ns}, made with or without room, all sequences of 2 of {STEPS} steps; entries read by offsets compared with the safe view after each"),
                ((ns + 1) * 2 * STEPS * STEPS) as u64,
                move |i, ctx| case::<$k, $v, $e, $g, $r, $s>(i, ns, ctx),
            ));
        };
    }
    macro_rules! values {
        ($k:ty) => {
            one!($k, Unit, (), (), (), S0);
            one!($k, Byte, (), (), (), S0);
            one!($k, Half, (), (), (), S0);
            one!($k, Int, (), (), (), S0);
            one!($k, Word, (), (), (), S0);
            one!($k, Full, (), (), (), S0);
            one!($k, Maybe, (), (), (), S1);
            one!($k, Small, (), (), (), S1);
            one!($k, Letter, (), (), (), S1);
            one!($k, Pair, (), (), (), S3);
            one!($k, Three, u64, u8, u64, S3);
            one!($k, Odd, u8, u64, [u64; 4], S3);
            one!($k, Both, u64, u64, u8, S0);
            one!($k, Full, u64, u64, u8, S1);
            one!($k, Full, u64, u64, u8, std::collections::hash_map::RandomState);
        };
    }
    values!(Unit);
    values!(Byte);
    values!(Half);
    values!(Int);
    values!(Word);
    values!(Full);
    values!(Maybe);
    values!(Small);
    values!(Flag);
    values!(Letter);
    values!(Pair);
    values!(Three);
    values!(Odd);
    values!(Both);
    Check {
        property: "P15",
        tier,
        rule: "whenever a layout is told for a kind of hash, reading any such hash through its offsets alone gives the length, keys and values the hash shows, in order".into(),
        assumptions: vec!["layouts are those of the pinned toolchain".into()],
        spaces,
    }
}
