//! P08: RubySet behaves as an insertion-ordered list of distinct elements; set relations are exact.
use engine::*;
use mc::env::*;
use rubymap::RubySet;
use ruby_traits::RubyEql;
use std::panic::{catch_unwind, AssertUnwindSafe};

type KK = K<()>;
type Set = RubySet<KK, Exec, Glob, Fault, Ident>;

#[derive(Clone, Copy, PartialEq, Debug)]
enum El {
    First,
    Mid,
    Last,
    New,
    Gone,
}
const ELS: [El; 5] = [El::First, El::Mid, El::Last, El::New, El::Gone];
#[derive(Clone, Copy, PartialEq, Debug)]
enum At {
    Zero,
    One,
    Mid,
    Last,
    Len,
    Over,
    N(u16),
}
const ATS: [At; 6] = [At::Zero, At::One, At::Mid, At::Last, At::Len, At::Over];

#[derive(Clone, Copy, PartialEq, Debug)]
enum Op {
    Nop,
    Insert(El),
    InsertFull(El),
    InsertSorted(El),
    InsertBefore(At, El),
    ShiftInsert(At, El),
    Replace(El),
    ReplaceFull(El),
    Append,
    AppendSelfOther,
    Extend,
    Contains(El),
    Get(El),
    GetFull(El),
    GetIndexOf(El),
    SwapRemove(El),
    ShiftRemove(El),
    SwapTake(El),
    ShiftTake(El),
    SwapRemoveFull(El),
    ShiftRemoveFull(El),
    Pop,
    Retain(u8),
    Sort,
    SortBy,
    SortUnstable,
    SortUnstableBy,
    SortCached,
    Reverse,
    SwapRemoveIndex(At),
    ShiftRemoveIndex(At),
    MoveIndex(At, At),
    Drain(At, At),
    SplitOffHead(At),
    SplitOffTail(At),
    Truncate(At),
    Clear,
    Reserve(u16),
    ReserveExact(u16),
    Shrink,
    ShrinkTo(u16),
    FirstLast,
    SortedBy,
    SortedUnstableBy,
    Relations,
}

struct W {
    s: Set,
    m: Vec<(u16, u32)>,
    e: Exec,
    g: Glob,
    fresh: u16,
    gone: Option<u16>,
    real: Vec<u32>,
    exp: Vec<u32>,
}
const PANIC: u32 = 0xdead_0001;
fn k2(k: &KK) -> [u32; 2] {
    [k.id as u32, k.tag]
}

impl W {
    fn new(profile: usize) -> W {
        W { s: RubySet::with_hasher(Ident), m: vec![], e: Exec::new(profile), g: Glob::default(), fresh: 0, gone: None, real: vec![], exp: vec![] }
    }
    fn mk(&mut self, id: u16) -> KK {
        let tag = self.e.stored.len() as u32;
        self.e.stored.push(self.e.hash[id as usize]);
        K::new(id, tag)
    }
    fn el(&mut self, k: El) -> Option<u16> {
        let n = self.m.len();
        match k {
            El::First => self.m.first().map(|x| x.0),
            El::Mid => (n >= 4).then(|| self.m[n / 2].0),
            El::Last => (n >= 2).then(|| self.m[n - 1].0),
            El::New => {
                self.fresh += 1;
                Some(self.fresh - 1)
            }
            El::Gone => self.gone,
        }
    }
    fn at(&self, p: At) -> Option<usize> {
        let n = self.m.len();
        match p {
            At::Zero => Some(0),
            At::One => (n >= 2).then_some(1),
            At::Mid => (n >= 5).then_some(n / 2),
            At::Last => (n >= 3).then(|| n - 1),
            At::Len => Some(n),
            At::Over => Some(n + 1),
            At::N(i) => Some(i as usize),
        }
    }
    fn find(&self, id: u16) -> Option<usize> {
        self.m.iter().position(|x| x.0 == id)
    }
    fn guarded(&mut self, panics: bool, f: impl FnOnce(&mut W) -> Result<(), Fault>) -> Result<(), Fault> {
        if !panics {
            return f(self);
        }
        match catch_unwind(AssertUnwindSafe(|| f(self))) {
            Ok(r) => r,
            Err(_) => {
                self.real = vec![PANIC];
                Ok(())
            }
        }
    }
    fn sorted(&self) -> bool {
        self.m.windows(2).all(|w| w[0].0 < w[1].0)
    }

    fn apply(&mut self, op: Op) -> Result<bool, String> {
        self.real.clear();
        self.exp.clear();
        match self.step(op) {
            Ok(false) => Ok(false),
            Ok(true) => {
                if self.real != self.exp {
                    return Err(format!("{op:?} returned {:?}, specified {:?}", self.real, self.exp));
                }
                if let Some(b) = self.e.bad_protocol.take() {
                    return Err(format!("{op:?}: {b}"));
                }
                Ok(true)
            }
            Err(f) => Err(format!("{op:?} reported {f:?} although no callback failed")),
        }
    }

    /// Real effect, then (only if no error was reported) the specified effect.
    fn step(&mut self, op: Op) -> Result<bool, Fault> {
        macro_rules! some {
            ($e:expr) => {
                match $e {
                    Some(x) => x,
                    None => return Ok(false),
                }
            };
        }
        macro_rules! eg {
            () => {
                (&mut self.e, &mut self.g)
            };
        }
        match op {
            Op::Nop => return Ok(false),
            Op::Insert(k) | Op::InsertFull(k) => {
                let id = some!(self.el(k));
                let key = self.mk(id);
                let tag = key.tag;
                let (e, g) = eg!();
                if let Op::Insert(_) = op {
                    let r = self.s.insert(key, e, g)?;
                    self.real.push(r as u32);
                } else {
                    let (i, r) = self.s.insert_full(key, e, g)?;
                    self.real.extend([i as u32, r as u32]);
                }
                let f = self.find(id);
                if f.is_none() {
                    self.m.push((id, tag));
                }
                let i = f.unwrap_or(self.m.len() - 1);
                if let Op::Insert(_) = op {
                    self.exp.push(f.is_none() as u32);
                } else {
                    self.exp.extend([i as u32, f.is_none() as u32]);
                }
            }
            Op::InsertSorted(k) => {
                if !self.sorted() {
                    return Ok(false);
                }
                let id = some!(self.el(k));
                let key = self.mk(id);
                let tag = key.tag;
                let (e, g) = eg!();
                let (i, r) = self.s.insert_sorted(key, e, g)?;
                self.real.extend([i as u32, r as u32]);
                match self.m.binary_search_by_key(&id, |x| x.0) {
                    Ok(i) => self.exp.extend([i as u32, 0]),
                    Err(i) => {
                        self.m.insert(i, (id, tag));
                        self.exp.extend([i as u32, 1]);
                    }
                }
            }
            Op::InsertBefore(p, k) => {
                let at = some!(self.at(p));
                let id = some!(self.el(k));
                let key = self.mk(id);
                let tag = key.tag;
                let n = self.m.len();
                self.guarded(at > n, |w| {
                    let (i, r) = w.s.insert_before(at, key, &mut w.e, &mut w.g)?;
                    w.real.extend([i as u32, r as u32]);
                    Ok(())
                })?;
                if at > n {
                    self.exp.push(PANIC);
                } else {
                    match self.find(id) {
                        Some(i) => {
                            let to = if at > i { at - 1 } else { at };
                            let x = self.m.remove(i);
                            self.m.insert(to, x);
                            self.exp.extend([to as u32, 0]);
                        }
                        None => {
                            self.m.insert(at, (id, tag));
                            self.exp.extend([at as u32, 1]);
                        }
                    }
                }
            }
            Op::ShiftInsert(p, k) => {
                let at = some!(self.at(p));
                let id = some!(self.el(k));
                let key = self.mk(id);
                let tag = key.tag;
                let f = self.find(id);
                let n = self.m.len();
                let bad = if f.is_some() { at >= n } else { at > n };
                self.guarded(bad, |w| {
                    let r = w.s.shift_insert(at, key, &mut w.e, &mut w.g)?;
                    w.real.push(r as u32);
                    Ok(())
                })?;
                if bad {
                    self.exp.push(PANIC);
                } else {
                    self.exp.push(f.is_none() as u32);
                    match f {
                        Some(i) => {
                            let x = self.m.remove(i);
                            self.m.insert(at, x);
                        }
                        None => self.m.insert(at, (id, tag)),
                    }
                }
            }
            Op::Replace(k) | Op::ReplaceFull(k) => {
                let id = some!(self.el(k));
                let key = self.mk(id);
                let tag = key.tag;
                let (e, g) = eg!();
                let full = matches!(op, Op::ReplaceFull(_));
                let (i, r) = if full {
                    let (i, r) = self.s.replace_full(key, e, g)?;
                    (i as u32, r)
                } else {
                    (0, self.s.replace(key, e, g)?)
                };
                if full {
                    self.real.push(i);
                }
                self.real.extend(r.iter().flat_map(k2));
                match self.find(id) {
                    Some(i) => {
                        if full {
                            self.exp.push(i as u32);
                        }
                        self.exp.extend([id as u32, self.m[i].1]);
                        self.m[i].1 = tag;
                    }
                    None => {
                        if full {
                            self.exp.push(self.m.len() as u32);
                        }
                        self.m.push((id, tag));
                    }
                }
            }
            Op::Append | Op::AppendSelfOther | Op::Extend => {
                // two known elements and three new ones
                let mut ids: Vec<u16> = vec![];
                let n0 = self.el(El::New).unwrap();
                ids.push(n0);
                if let Some(x) = self.el(El::Last) {
                    ids.push(x);
                }
                ids.push(self.el(El::New).unwrap());
                if let Some(x) = self.el(El::First) {
                    ids.push(x);
                }
                ids.push(self.el(El::New).unwrap());
                let keys: Vec<KK> = ids.iter().map(|i| self.mk(*i)).collect();
                let items: Vec<(u16, u32)> = keys.iter().map(|k| (k.id, k.tag)).collect();
                let (e, g) = eg!();
                match op {
                    Op::Extend => self.s.extend(keys, e, g)?,
                    _ => {
                        let mut o: Set = RubySet::with_hasher(Ident);
                        o.extend(keys, e, g)?;
                        if op == Op::Append {
                            self.s.append(&mut o, e, g)?;
                            self.real.push(o.len() as u32);
                            self.exp.push(0);
                        } else {
                            o.append(&mut self.s, e, g)?;
                            self.real.push(self.s.len() as u32);
                            self.exp.push(0);
                            self.s = o;
                        }
                    }
                }
                let old = std::mem::take(&mut self.m);
                let (a, b) = if op == Op::AppendSelfOther { (items, old) } else { (old, items) };
                self.m = a;
                for x in b {
                    if self.find(x.0).is_none() {
                        self.m.push(x);
                    }
                }
            }
            Op::Contains(k) | Op::Get(k) | Op::GetFull(k) | Op::GetIndexOf(k) => {
                let id = some!(self.el(k));
                let key = self.mk(id);
                let (e, g) = eg!();
                match op {
                    Op::Contains(_) => self.real.push(self.s.contains(&key, e, g)? as u32),
                    Op::Get(_) => self.real.extend(self.s.get(&key, e, g)?.iter().flat_map(|k| k2(k))),
                    Op::GetFull(_) => self.real.extend(self.s.get_full(&key, e, g)?.iter().flat_map(|(i, k)| [*i as u32, k2(k)[0], k2(k)[1]])),
                    _ => self.real.extend(self.s.get_index_of(&key, e, g)?.iter().map(|i| *i as u32)),
                }
                let f = self.find(id);
                match op {
                    Op::Contains(_) => self.exp.push(f.is_some() as u32),
                    _ => {
                        if let Some(i) = f {
                            let x = self.m[i];
                            match op {
                                Op::Get(_) => self.exp.extend([x.0 as u32, x.1]),
                                Op::GetFull(_) => self.exp.extend([i as u32, x.0 as u32, x.1]),
                                _ => self.exp.push(i as u32),
                            }
                        }
                    }
                }
            }
            Op::SwapRemove(k) | Op::ShiftRemove(k) | Op::SwapTake(k) | Op::ShiftTake(k) | Op::SwapRemoveFull(k) | Op::ShiftRemoveFull(k) => {
                let id = some!(self.el(k));
                let key = self.mk(id);
                let (e, g) = eg!();
                match op {
                    Op::SwapRemove(_) => self.real.push(self.s.swap_remove(&key, e, g)? as u32),
                    Op::ShiftRemove(_) => self.real.push(self.s.shift_remove(&key, e, g)? as u32),
                    Op::SwapTake(_) => self.real.extend(self.s.swap_take(&key, e, g)?.iter().flat_map(k2)),
                    Op::ShiftTake(_) => self.real.extend(self.s.shift_take(&key, e, g)?.iter().flat_map(k2)),
                    Op::SwapRemoveFull(_) => self.real.extend(self.s.swap_remove_full(&key, e, g)?.iter().flat_map(|(i, k)| [*i as u32, k2(k)[0], k2(k)[1]])),
                    _ => self.real.extend(self.s.shift_remove_full(&key, e, g)?.iter().flat_map(|(i, k)| [*i as u32, k2(k)[0], k2(k)[1]])),
                }
                let f = self.find(id);
                let swap = matches!(op, Op::SwapRemove(_) | Op::SwapTake(_) | Op::SwapRemoveFull(_));
                let x = f.map(|i| if swap { self.m.swap_remove(i) } else { self.m.remove(i) });
                match op {
                    Op::SwapRemove(_) | Op::ShiftRemove(_) => self.exp.push(f.is_some() as u32),
                    Op::SwapTake(_) | Op::ShiftTake(_) => self.exp.extend(x.iter().flat_map(|x| [x.0 as u32, x.1])),
                    _ => self.exp.extend(x.iter().flat_map(|x| [f.unwrap() as u32, x.0 as u32, x.1])),
                }
                if f.is_some() {
                    self.gone = Some(id);
                }
            }
            Op::Pop => {
                let (e, g) = eg!();
                let r = self.s.pop(e, g)?;
                self.real.extend(r.iter().flat_map(k2));
                let x = self.m.pop();
                self.exp.extend(x.iter().flat_map(|x| [x.0 as u32, x.1]));
                if let Some(x) = x {
                    self.gone = Some(x.0);
                }
            }
            Op::Retain(p) => {
                let mut i = 0;
                let keep = |i: usize, id: u16, n: usize| match p {
                    0 => false,
                    1 => id % 2 == 0,
                    2 => i != 0,
                    3 => i + 1 != n,
                    _ => true,
                };
                let n = self.m.len();
                let real = &mut self.real;
                self.s.retain(|k| {
                    real.extend(k2(k));
                    i += 1;
                    keep(i - 1, k.id, n)
                });
                let mut i = 0;
                let exp = &mut self.exp;
                self.m.retain(|x| {
                    exp.extend([x.0 as u32, x.1]);
                    i += 1;
                    keep(i - 1, x.0, n)
                });
            }
            Op::Sort | Op::SortUnstable => {
                if op == Op::Sort {
                    self.s.sort()
                } else {
                    self.s.sort_unstable()
                }
                self.m.sort_by_key(|x| x.0);
            }
            Op::SortBy => {
                self.s.sort_by(|a, b| (b.id % 3).cmp(&(a.id % 3)));
                self.m.sort_by(|a, b| (b.0 % 3).cmp(&(a.0 % 3)));
            }
            Op::SortUnstableBy => {
                self.s.sort_unstable_by(|a, b| b.id.cmp(&a.id));
                self.m.sort_by(|a, b| b.0.cmp(&a.0));
            }
            Op::SortCached => {
                self.s.sort_by_cached_key(|a| a.id % 3);
                self.m.sort_by_key(|a| a.0 % 3);
            }
            Op::SortedBy | Op::SortedUnstableBy => {
                let s = std::mem::take(&mut self.s);
                let r: Vec<KK> = if op == Op::SortedBy {
                    s.sorted_by(|a, b| (b.id % 3).cmp(&(a.id % 3))).collect()
                } else {
                    s.sorted_unstable_by(|a, b| b.id.cmp(&a.id)).collect()
                };
                self.real.extend(r.iter().flat_map(k2));
                let mut m = self.m.clone();
                if op == Op::SortedBy {
                    m.sort_by(|a, b| (b.0 % 3).cmp(&(a.0 % 3)));
                } else {
                    m.sort_by(|a, b| b.0.cmp(&a.0));
                }
                self.exp.extend(m.iter().flat_map(|x| [x.0 as u32, x.1]));
                self.m.clear();
            }
            Op::Reverse => {
                self.s.reverse();
                self.m.reverse();
            }
            Op::SwapRemoveIndex(p) | Op::ShiftRemoveIndex(p) => {
                let i = some!(self.at(p));
                let (e, g) = eg!();
                let swap = matches!(op, Op::SwapRemoveIndex(_));
                let r = if swap { self.s.swap_remove_index(i, e, g)? } else { self.s.shift_remove_index(i, e, g)? };
                self.real.extend(r.iter().flat_map(k2));
                if i < self.m.len() {
                    let x = if swap { self.m.swap_remove(i) } else { self.m.remove(i) };
                    self.exp.extend([x.0 as u32, x.1]);
                    self.gone = Some(x.0);
                }
            }
            Op::MoveIndex(p, q) => {
                let (i, j) = (some!(self.at(p)), some!(self.at(q)));
                let bad = i >= self.m.len() || j >= self.m.len();
                self.guarded(bad, |w| w.s.move_index(i, j, &mut w.e, &mut w.g))?;
                if bad {
                    self.exp.push(PANIC);
                } else {
                    let x = self.m.remove(i);
                    self.m.insert(j, x);
                }
            }
            Op::Drain(p, q) => {
                let (i, j) = (some!(self.at(p)), some!(self.at(q)));
                let bad = i > j || j > self.m.len();
                self.guarded(bad, |w| {
                    let v: Vec<KK> = w.s.drain(i..j, &mut w.e, &mut w.g)?.collect();
                    w.real.extend(v.iter().flat_map(k2));
                    Ok(())
                })?;
                if bad {
                    self.exp.push(PANIC);
                } else {
                    let v: Vec<_> = self.m.drain(i..j).collect();
                    self.exp.extend(v.iter().flat_map(|x| [x.0 as u32, x.1]));
                }
            }
            Op::SplitOffHead(p) | Op::SplitOffTail(p) => {
                let i = some!(self.at(p));
                let bad = i > self.m.len();
                let keep_head = matches!(op, Op::SplitOffHead(_));
                self.guarded(bad, |w| {
                    let mut t = w.s.split_off(i, &mut w.e, &mut w.g)?;
                    if !keep_head {
                        std::mem::swap(&mut w.s, &mut t);
                    }
                    w.real.extend(t.iter().flat_map(k2));
                    Ok(())
                })?;
                if bad {
                    self.exp.push(PANIC);
                } else {
                    let mut t = self.m.split_off(i);
                    if !keep_head {
                        std::mem::swap(&mut self.m, &mut t);
                    }
                    self.exp.extend(t.iter().flat_map(|x| [x.0 as u32, x.1]));
                }
            }
            Op::Truncate(p) => {
                let i = some!(self.at(p));
                let (e, g) = eg!();
                self.s.truncate(i, e, g)?;
                self.m.truncate(i);
            }
            Op::Clear => {
                self.s.clear();
                self.m.clear();
            }
            Op::Reserve(n) => {
                self.s.reserve(n as usize);
                self.real.push((self.s.capacity() >= self.m.len() + n as usize) as u32);
                self.exp.push(1);
            }
            Op::ReserveExact(n) => {
                self.s.reserve_exact(n as usize);
                self.real.push((self.s.capacity() >= self.m.len() + n as usize) as u32);
                self.exp.push(1);
            }
            Op::Shrink => self.s.shrink_to_fit(),
            Op::ShrinkTo(n) => self.s.shrink_to(n as usize),
            Op::FirstLast => {
                self.real.extend(self.s.first().iter().flat_map(|k| k2(k)));
                self.real.extend(self.s.last().iter().flat_map(|k| k2(k)));
                self.exp.extend(self.m.first().iter().flat_map(|x| [x.0 as u32, x.1]));
                self.exp.extend(self.m.last().iter().flat_map(|x| [x.0 as u32, x.1]));
            }
            Op::Relations => {
                // against itself rebuilt in reverse order, without the first, and with one more
                let ids: Vec<u16> = self.m.iter().map(|x| x.0).collect();
                let extra = self.el(El::New).unwrap();
                let mut o: Set = RubySet::with_hasher(Ident);
                for id in ids.iter().rev() {
                    let k = self.mk(*id);
                    o.insert(k, &mut self.e, &mut self.g)?;
                }
                for t in 0..3 {
                    let (e, g) = eg!();
                    self.real.extend([
                        self.s.is_subset(&o, e, g)? as u32,
                        self.s.is_superset(&o, e, g)? as u32,
                        o.is_subset(&self.s, e, g)? as u32,
                        self.s.eql(&o, e, g)? as u32,
                        self.s.is_disjoint(&o, e, g)? as u32,
                    ]);
                    let n = ids.len();
                    match t {
                        0 => {
                            self.exp.extend([1, 1, 1, 1, (n == 0) as u32]);
                            let k = self.mk(extra);
                            o.insert(k, &mut self.e, &mut self.g)?;
                        }
                        1 => {
                            self.exp.extend([1, (false) as u32, 0, 0, (n == 0) as u32]);
                            if let Some(id) = ids.first() {
                                let k = self.mk(*id);
                                o.shift_remove(&k, &mut self.e, &mut self.g)?;
                            }
                        }
                        _ => self.exp.extend([(n == 0) as u32, 0, 0, 0, (n <= 1) as u32]),
                    }
                }
            }
        }
        Ok(true)
    }

    fn check(&mut self) -> Result<(), String> {
        let got: Vec<(u16, u32)> = self.s.iter().map(|k| (k.id, k.tag)).collect();
        if got != self.m {
            return Err(format!("contents are {got:?}, specified {:?}", self.m));
        }
        if self.s.len() != self.m.len() || self.s.is_empty() != self.m.is_empty() {
            return Err(format!("length is {}, specified {}", self.s.len(), self.m.len()));
        }
        for (i, (id, tag)) in self.m.clone().into_iter().enumerate() {
            let k = self.mk(id);
            match self.s.get_full(&k, &mut self.e, &mut self.g) {
                Ok(Some((j, x))) if j == i && x.tag == tag => {}
                r => return Err(format!("looking up k{id} (position {i}) gives {r:?}")),
            }
            if self.s.get_index(i).map(|k| k.tag) != Some(tag) {
                return Err(format!("position {i} does not show k{id}"));
            }
        }
        for id in [self.fresh, self.fresh + 1, 599].into_iter().chain(self.gone.filter(|g| self.find(*g).is_none())) {
            let k = self.mk(id);
            if !matches!(self.s.contains(&k, &mut self.e, &mut self.g), Ok(false)) {
                return Err(format!("k{id} is not an element but is found"));
            }
        }
        Ok(())
    }
    fn fp(&self) -> u64 {
        let mut f = Fp::default();
        f.add(self.s.capacity() as u64);
        for (id, t) in &self.m {
            f.add((*id as u64) << 32 | *t as u64);
        }
        f.0
    }
}

fn build(w: &mut W, n: usize, kind: usize) -> Result<(), String> {
    let ins = |w: &mut W, c: usize| -> Result<(), String> {
        for _ in 0..c {
            w.apply(Op::Insert(El::New))?;
        }
        Ok(())
    };
    match kind {
        0 => ins(w, n)?,
        1 => {
            w.s = RubySet::with_capacity_and_hasher(n.max(9) + 1, Ident);
            ins(w, n)?
        }
        2 => {
            ins(w, n + 14)?;
            w.apply(Op::Truncate(At::N(n as u16)))?;
        }
        3 => {
            ins(w, n + 3)?;
            w.apply(Op::ShiftRemoveIndex(At::Zero))?;
            w.apply(Op::SwapRemoveIndex(At::Zero))?;
            w.apply(Op::ShiftTake(El::First))?;
        }
        4 => {
            ins(w, n)?;
            w.apply(Op::Reverse)?;
        }
        _ => {
            ins(w, n + 13)?;
            w.apply(Op::Drain(At::N(n as u16 / 2), At::N(n as u16 / 2 + 13)))?;
            w.apply(Op::Shrink)?;
        }
    }
    if w.m.len() != n {
        return Err(format!("start state has {} elements instead of {n}", w.m.len()));
    }
    Ok(())
}
const KINDS: usize = 6;
fn kind_name(k: usize) -> &'static str {
    ["inserted", "reserved first", "truncated from more", "removed from more", "reversed", "drained and shrunk"][k]
}

fn alphabet() -> Vec<Op> {
    let mut v = vec![Op::Nop];
    for k in ELS {
        v.extend([
            Op::Insert(k), Op::InsertFull(k), Op::InsertSorted(k), Op::Replace(k), Op::ReplaceFull(k), Op::Contains(k), Op::Get(k), Op::GetFull(k), Op::GetIndexOf(k),
            Op::SwapRemove(k), Op::ShiftRemove(k), Op::SwapTake(k), Op::ShiftTake(k), Op::SwapRemoveFull(k), Op::ShiftRemoveFull(k),
        ]);
        for p in ATS {
            v.extend([Op::InsertBefore(p, k), Op::ShiftInsert(p, k)]);
        }
    }
    for p in ATS {
        v.extend([Op::SwapRemoveIndex(p), Op::ShiftRemoveIndex(p), Op::SplitOffHead(p), Op::SplitOffTail(p), Op::Truncate(p)]);
        for q in ATS {
            v.extend([Op::MoveIndex(p, q), Op::Drain(p, q)]);
        }
    }
    for p in 0..5 {
        v.push(Op::Retain(p));
    }
    v.extend([
        Op::Append, Op::AppendSelfOther, Op::Extend, Op::Pop, Op::Sort, Op::SortBy, Op::SortUnstable, Op::SortUnstableBy, Op::SortCached, Op::Reverse, Op::Clear, Op::Reserve(1),
        Op::Reserve(9), Op::Reserve(40), Op::ReserveExact(9), Op::Shrink, Op::ShrinkTo(10), Op::FirstLast, Op::SortedBy, Op::SortedUnstableBy, Op::Relations,
    ]);
    v
}
fn core_alphabet() -> Vec<Op> {
    vec![
        Op::Nop, Op::Insert(El::New), Op::Insert(El::Mid), Op::Insert(El::Gone), Op::Replace(El::First), Op::Replace(El::New), Op::InsertBefore(At::One, El::Last), Op::InsertBefore(At::Mid, El::New),
        Op::ShiftInsert(At::Last, El::First), Op::InsertSorted(El::New), Op::ShiftTake(El::First), Op::SwapTake(El::Mid), Op::ShiftRemove(El::Last), Op::SwapRemoveIndex(At::Zero), Op::Pop, Op::Retain(1),
        Op::Sort, Op::Reverse, Op::MoveIndex(At::Zero, At::Last), Op::MoveIndex(At::Mid, At::Zero), Op::Drain(At::One, At::Last), Op::SplitOffTail(At::Mid), Op::Truncate(At::Mid), Op::Clear, Op::Append,
        Op::AppendSelfOther, Op::Extend, Op::Reserve(9), Op::Shrink, Op::Relations,
    ]
}

fn run(p: usize, n: usize, kind: usize, ops: &[Op], ctx: &mut Ctx) -> Result<(), String> {
    let mut w = W::new(p);
    ctx.trace.clear();
    w.e.check_protocol = true;
    ctx.note(|| format!("start: {n} elements, {}, hashes: {}", kind_name(kind), profile_name(p)));
    build(&mut w, n, kind)?;
    for op in ops {
        if w.apply(*op)? {
            let (real, len) = (&w.real, w.m.len());
            ctx.step(|| format!("{op:?} -> {real:?} (len {len})"));
        }
    }
    w.e.check_protocol = false;
    w.check()?;
    ctx.state(w.fp());
    ctx.execution();
    Ok(())
}

fn seq<'a>(name: &'static str, alpha: Vec<Op>, depth: u32, profiles: Vec<usize>, ns: Vec<usize>, kinds: Vec<usize>) -> Space<'a> {
    let starts = (profiles.len() * ns.len() * kinds.len()) as u64;
    Space::new(
        name,
        format!("all sequences of {depth} operations over an alphabet of {} from {starts} start states (sizes {ns:?} x {} histories x {} hash profiles)", alpha.len(), kinds.len(), profiles.len()),
        starts * alpha.len() as u64,
        move |idx, ctx| {
            let mut r = Radix(idx);
            let op1 = alpha[r.take(alpha.len())];
            let p = profiles[r.take(profiles.len())];
            let k = kinds[r.take(kinds.len())];
            let n = ns[r.take(ns.len())];
            let mut ops = vec![op1; depth as usize];
            for j in 0..(alpha.len() as u64).pow(depth - 1) {
                let mut r = Radix(j);
                for d in 1..depth as usize {
                    ops[d] = alpha[r.take(alpha.len())];
                }
                run(p, n, k, &ops, ctx).map_err(|m| format!("{n} elements ({}), hashes {}, {ops:?}: {m}", kind_name(k), profile_name(p)))?;
            }
            Ok(())
        },
    )
}

/// Every callback of every single-element operation fails in turn; the set must stay as it was.
fn faults<'a>(name: &'static str, profiles: Vec<usize>, ns: Vec<usize>, kinds: Vec<usize>) -> Space<'a> {
    let alpha: Vec<Op> = alphabet()
        .into_iter()
        .filter(|o| !matches!(o, Op::Nop | Op::Append | Op::AppendSelfOther | Op::Extend | Op::Relations))
        .collect();
    Space::new(
        name,
        format!("every operation on one element ({}), each of its callbacks failing in turn, from {} start states", alpha.len(), profiles.len() * ns.len() * kinds.len()),
        (profiles.len() * ns.len() * kinds.len() * alpha.len()) as u64,
        move |idx, ctx| {
            let mut r = Radix(idx);
            let op = alpha[r.take(alpha.len())];
            let p = profiles[r.take(profiles.len())];
            let k = kinds[r.take(kinds.len())];
            let n = ns[r.take(ns.len())];
            for fail in 1.. {
                let mut w = W::new(p);
                build(&mut w, n, k)?;
                let before = w.m.clone();
                w.e.fail_at = w.e.calls + fail;
                let at = w.e.fail_at;
                w.real.clear();
                w.exp.clear();
                let fail_msg = |m: String| format!("{n} elements ({}), hashes {}, {op:?} with callback {fail} failing: {m}", kind_name(k), profile_name(p));
                let res = w.step(op);
                ctx.step(|| format!("{op:?}, callback {fail} fails: {res:?}"));
                match res {
                    Err(f) if f == Fault(at) => {}
                    Err(f) => return Err(fail_msg(format!("reported {f:?}"))),
                    Ok(_) => {
                        if w.e.calls >= at {
                            return Err(fail_msg("the failure was not reported".into()));
                        }
                        break;
                    }
                }
                if w.e.calls != at {
                    return Err(fail_msg(format!("{} more callbacks were made after the failure", w.e.calls - at)));
                }
                w.e.fail_at = 0;
                w.m = before;
                w.check().map_err(&fail_msg)?;
                w.apply(Op::Insert(El::New)).map_err(&fail_msg)?;
                w.check().map_err(&fail_msg)?;
                ctx.execution();
            }
            Ok(())
        },
    )
}

/// All pairs of subsets of a universe in all insertion orders up to rotation/reversal.
fn algebra<'a>(bits: u32) -> Space<'a> {
    Space::new(
        "relations",
        format!("every pair of subsets of a universe of {bits} elements, inserted in four orders, under every hash profile, also with every callback failing: subset, superset, disjoint, eql?"),
        (1u64 << bits) * NPROFILES as u64,
        move |idx, ctx| {
            let mut r = Radix(idx);
            let p = r.take(NPROFILES);
            let a = r.take(1 << bits) as u32;
            for b in 0..1u32 << bits {
                for order in 0..4 {
                    let mut e = Exec::new(p);
                    let mut g = Glob::default();
                    let mut mk = |x: u32, rev: bool, pad: bool, e: &mut Exec| -> Set {
                        let mut s: Set = if pad { RubySet::with_capacity_and_hasher(20, Ident) } else { RubySet::with_hasher(Ident) };
                        for i in 0..bits {
                            let i = if rev { bits - 1 - i } else { i };
                            if x >> i & 1 == 1 {
                                s.insert(K::new(i as u16, 1000), e, &mut g).unwrap();
                            }
                        }
                        s
                    };
                    let s = mk(a, order & 1 == 1, false, &mut e);
                    let t = mk(b, order & 2 == 2, order & 1 == 1, &mut e);
                    let want = [a & !b == 0, b & !a == 0, a & b == 0, a == b];
                    let base = e.calls;
                    let ask = |e: &mut Exec, g: &mut Glob| -> Result<[bool; 4], Fault> {
                        Ok([s.is_subset(&t, e, g)?, s.is_superset(&t, e, g)?, s.is_disjoint(&t, e, g)?, s.eql(&t, e, g)?])
                    };
                    let got = ask(&mut e, &mut g);
                    ctx.step(|| format!("sets {a:b} and {b:b}, hashes {}: {got:?}", profile_name(p)));
                    if got != Ok(want) {
                        return Err(format!("sets {a:b} and {b:b} (order {order}), hashes {}: [subset, superset, disjoint, eql?] = {got:?}, specified {want:?}", profile_name(p)));
                    }
                    if order == 0 {
                        for f in 1..=e.calls - base {
                            let mut e2 = Exec::new(p);
                            e2.fail_at = f;
                            let got = ask(&mut e2, &mut g);
                            if got != Err(Fault(f)) || e2.calls != f {
                                return Err(format!("sets {a:b} and {b:b}, hashes {}, callback {f} failing: {got:?}", profile_name(p)));
                            }
                        }
                    }
                    ctx.execution();
                }
                ctx.state((a as u64) << 40 | (b as u64) << 8 | p as u64);
            }
            Ok(())
        },
    )
}

fn positions<'a>(name: &'static str, ns: Vec<usize>, profiles: Vec<usize>, kinds: Vec<usize>) -> Space<'a> {
    Space::new(
        name,
        format!("every positional operation with every pair of positions at sizes {ns:?}"),
        (ns.len() * profiles.len() * kinds.len()) as u64,
        move |idx, ctx| {
            let mut r = Radix(idx);
            let p = profiles[r.take(profiles.len())];
            let k = kinds[r.take(kinds.len())];
            let n = ns[r.take(ns.len())];
            for i in 0..=n as u16 {
                for j in 0..=n as u16 {
                    for op in [Op::MoveIndex(At::N(i), At::N(j)), Op::Drain(At::N(i), At::N(j)), Op::InsertBefore(At::N(i), El::Mid), Op::ShiftInsert(At::N(i), El::New), Op::ShiftRemoveIndex(At::N(i)), Op::SwapRemoveIndex(At::N(i)), Op::SplitOffHead(At::N(i)), Op::SplitOffTail(At::N(i))] {
                        if j > 0 && !matches!(op, Op::MoveIndex(..) | Op::Drain(..)) {
                            continue;
                        }
                        run(p, n, k, &[op], ctx).map_err(|m| format!("{n} elements ({}), hashes {}, {op:?}: {m}", kind_name(k), profile_name(p)))?;
                    }
                }
            }
            Ok(())
        },
    )
}

fn main() {
    let prop = property_from_args();
    assert_eq!(prop, "P08");
    let tier = tier_from_args();
    let q = tier == Tier::Quick;
    let allp: Vec<usize> = (0..NPROFILES).collect();
    let allk: Vec<usize> = (0..KINDS).collect();
    let small = vec![0, 1, 2, 3, 7, 8, 9, 10, 14, 15, 28, 29];
    let mut spaces = vec![
        seq("single operations", alphabet(), 1, allp.clone(), [small.clone(), vec![16, 56, 57, 112]].concat(), allk.clone()),
        seq("pairs", alphabet(), 2, vec![0, 3, 5], vec![0, 1, 2, 5, 8, 9, 14], vec![0, 2, 3]),
        seq("triples", core_alphabet(), 3, vec![0, 1, 6], vec![0, 1, 4, 8, 9, 14], vec![0, 2, 5]),
        faults("failing callbacks", allp.clone(), small.clone(), allk.clone()),
        algebra(if q { 5 } else { 7 }),
        positions("every position", if q { vec![1, 2, 5, 8, 9, 15, 28] } else { vec![1, 2, 5, 8, 9, 15, 28, 29, 56, 57] }, vec![0, 1, 3, 6, 9], allk.clone()),
    ];
    if !q {
        spaces.push(seq("pairs from every start", alphabet(), 2, allp.clone(), small.clone(), allk.clone()));
        spaces.push(seq("four operations", core_alphabet(), 4, vec![0, 3], vec![0, 1, 4, 8, 9, 14], vec![0, 2]));
    }
    Check {
        property: "P08",
        tier,
        rule: "every sequence of set operations of the given length from every start state, compared with a list of distinct elements; every pair of sets".into(),
        assumptions: vec![],
        spaces,
    }
    .main()
}
