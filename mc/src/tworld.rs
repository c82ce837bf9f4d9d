//! The unordered tables (HashTable, HashMap, HashSet) next to their specification: a bag of entries.

use crate::env::*;
use engine::{Ctx, Fp};
use hashbrown::hash_map::{self, HashMap};
use hashbrown::hash_set::{self, HashSet};
use hashbrown::hash_table::{self, HashTable};
use ruby_traits::RubyEql;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub type Table<P> = HashTable<(K<P>, V<P>), Exec, Glob, Fault>;
pub type Map<P> = HashMap<K<P>, V<P>, Exec, Glob, Fault, Prof>;
pub type Set<P> = HashSet<K<P>, Exec, Glob, Fault, Prof>;

pub enum Cont<P: Payload> {
    T(Table<P>),
    M(Map<P>),
    S(Set<P>),
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Which {
    Table,
    Map,
    Set,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Ent {
    pub id: u16,
    pub tag: u32,
    pub val: u32,
}
impl Ent {
    fn words(&self) -> [u32; 3] {
        [self.id as u32, self.tag, self.val]
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Key {
    First,
    Mid,
    Last,
    New,
    Gone,
    At(u16),
}
pub const KEYS: [Key; 5] = [Key::First, Key::Mid, Key::Last, Key::New, Key::Gone];

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op {
    Nop,
    // all three
    Insert(Key),
    Get(Key),
    Remove(Key),
    Clear,
    Reserve(u16),
    ShrinkToFit,
    ShrinkTo(u16),
    Retain(u8),
    Drain(u8),
    Extract(u8, u8),
    Clone,
    CloneFrom(u8),
    Rebuild(u8),
    Iter,
    IterMut,
    Extend,
    FromIter,
    EqlCopy,
    InsertUnchecked,
    EntryInsert(Key),
    EntryOrInsert(Key),
    EntryRemove(Key),
    // maps and tables
    FindMut(Key),
    EntryOrInsertWith(Key),
    EntryModify(Key),
    // tables
    InsertDup(Key),
    FindEntryRemoveInsert(Key),
    FindEntryTable(Key),
    EntrySym(Key),
    IterHash(Key),
    IterHashMut(Key),
    // maps
    GetKeyValue(Key),
    GetKeyValueMut(Key),
    Contains(Key),
    TryInsert(Key),
    RemoveEntry(Key),
    EntryOrInsertWithKey(Key),
    EntryOrDefault(Key),
    EntryReplace(Key, bool),
    OccReplace(Key, bool),
    OccInsert(Key),
    OccRemoveEntry(Key),
    VacEntry(Key),
    RefInsert(Key),
    RefOrInsert(Key),
    RefOrInsertWith(Key),
    RefOrInsertWithKey(Key),
    RefOrDefault(Key),
    RefModify(Key),
    RefVacEntry(Key),
    KeysValues,
    ValuesMut,
    IntoKeys,
    IntoValues,
    // sets
    GetOrInsert(Key),
    GetOrInsertWith(Key),
    GetOrInsertWithOther,
    Replace(Key),
    Take(Key),
    FromMap,
}

pub struct World<P: Payload> {
    pub c: Cont<P>,
    pub which: Which,
    pub m: Vec<Ent>,
    pub e: Exec,
    pub g: Glob,
    pub next_val: u32,
    pub next_tag: u32,
    pub fresh: u16,
    pub gone: Option<u16>,
    pub real: Vec<u32>,
    pub exp: Vec<u32>,
    pub profile: usize,
}
pub const PANIC: u32 = 0xdead_0001;
/// Sort the reported entries (triples), for results whose order is not specified.
fn sort3(v: &mut Vec<u32>) {
    let mut t: Vec<[u32; 3]> = v.chunks(3).map(|c| [c[0], c[1], c[2]]).collect();
    t.sort();
    *v = t.concat();
}
fn kv<P>(x: (&K<P>, &V<P>)) -> [u32; 3] {
    [x.0.id as u32, x.0.tag, x.1.v]
}

fn keep(p: u8, id: u16, i: usize) -> bool {
    match p {
        0 => false,
        1 => id % 2 == 0,
        2 => id % 3 != 0,
        3 => i != 0,
        _ => true,
    }
}

impl<P: Payload> World<P> {
    pub fn new(which: Which, profile: usize) -> Self {
        SYM_PROFILE.with(|p| p.set(profile));
        World {
            c: Self::empty(which, profile, 0),
            which,
            m: vec![],
            e: Exec::new(profile),
            g: Glob::default(),
            next_val: 1,
            next_tag: 0,
            fresh: 0,
            gone: None,
            real: vec![],
            exp: vec![],
            profile,
        }
    }
    pub fn empty(which: Which, profile: usize, cap: usize) -> Cont<P> {
        match which {
            Which::Table => Cont::T(HashTable::with_capacity(cap)),
            Which::Map => Cont::M(HashMap::with_capacity_and_hasher(cap, Prof(profile))),
            Which::Set => Cont::S(HashSet::with_capacity_and_hasher(cap, Prof(profile))),
        }
    }
    pub fn len(&self) -> usize {
        match &self.c {
            Cont::T(t) => t.len(),
            Cont::M(t) => t.len(),
            Cont::S(t) => t.len(),
        }
    }
    pub fn capacity(&self) -> usize {
        match &self.c {
            Cont::T(t) => t.capacity(),
            Cont::M(t) => t.capacity(),
            Cont::S(t) => t.capacity(),
        }
    }
    pub fn val(&mut self) -> u32 {
        if self.which == Which::Set {
            return 0;
        }
        self.next_val += 1;
        self.next_val
    }
    pub fn mk(&mut self, id: u16) -> K<P> {
        self.next_tag += 1;
        K::new(id, self.next_tag)
    }
    pub fn key(&mut self, k: Key) -> Option<u16> {
        let n = self.m.len();
        match k {
            Key::First => self.m.first().map(|x| x.id),
            Key::Mid => (n >= 3).then(|| self.m[n / 2].id),
            Key::Last => (n >= 2).then(|| self.m[n - 1].id),
            Key::New => {
                self.fresh += 1;
                Some(self.fresh - 1)
            }
            Key::Gone => self.gone,
            Key::At(i) => self.m.get(i as usize).map(|x| x.id),
        }
    }
    pub fn find(&self, id: u16) -> Option<usize> {
        self.m.iter().position(|x| x.id == id)
    }
    fn by_tag(&self, id: u16, tag: u32) -> Option<usize> {
        self.m.iter().position(|x| x.id == id && x.tag == tag)
    }
    fn dups(&self, id: u16) -> bool {
        self.m.iter().filter(|x| x.id == id).count() > 1
    }
    fn removed(&mut self, i: usize) -> Ent {
        let x = self.m.remove(i);
        self.gone = if self.find(x.id).is_none() { Some(x.id) } else { None };
        x
    }

    pub fn apply(&mut self, op: Op) -> Result<bool, String> {
        self.real.clear();
        self.exp.clear();
        match self.step(op) {
            Ok(false) => Ok(false),
            Ok(true) => {
                if self.real != self.exp {
                    return Err(format!("{op:?} returned {:?}, specified {:?}", self.real, self.exp));
                }
                if let Some(b) = self.e.bad_protocol.take() {
                    return Err(format!("{op:?}: {b}"));
                }
                if self.len() != self.m.len() {
                    return Err(format!("{op:?} left {} entries, specified {}", self.len(), self.m.len()));
                }
                Ok(true)
            }
            Err(f) => Err(format!("{op:?} reported {f:?} although no callback failed")),
        }
    }

    /// Real effect, then (only if no error was reported) the specified effect.
    pub fn step(&mut self, op: Op) -> Result<bool, Fault> {
        match self.which {
            Which::Table => self.step_table(op),
            Which::Map => self.step_map(op),
            Which::Set => self.step_set(op),
        }
    }

    /// Specified effect of `insert`: the value of a present key is replaced, the stored key stays.
    fn spec_put(&mut self, id: u16, tag: u32, val: u32) -> Option<Ent> {
        match self.find(id) {
            Some(i) => {
                let old = self.m[i];
                self.m[i].val = val;
                Some(old)
            }
            None => {
                self.m.push(Ent { id, tag, val });
                None
            }
        }
    }
    fn spec_all(&mut self) {
        self.exp = self.m.iter().flat_map(|x| x.words()).collect();
        sort3(&mut self.exp);
    }
    /// Check a partial traversal: `real` must be `take` (or all) distinct stored entries.
    fn subset_of(&mut self, pool: &[Ent], count: usize) {
        let mut r = self.real.clone();
        sort3(&mut r);
        let mut seen = vec![];
        for c in r.chunks(3) {
            let x = Ent { id: c[0] as u16, tag: c[1], val: c[2] };
            if pool.contains(&x) && !seen.contains(&x) {
                seen.push(x);
            }
        }
        self.real = vec![r.len() as u32 / 3];
        self.exp = vec![count as u32];
        if seen.len() * 3 != r.len() {
            self.real.push(1);
        }
    }

    fn step_table(&mut self, op: Op) -> Result<bool, Fault> {
        macro_rules! some {
            ($e:expr) => {
                match $e {
                    Some(x) => x,
                    None => return Ok(false),
                }
            };
        }
        macro_rules! t {
            () => {
                match &mut self.c {
                    Cont::T(t) => t,
                    _ => unreachable!(),
                }
            };
        }
        let hashes = HashTab(self.profile);
        let hasher = move |x: &(K<P>, V<P>)| {
            user_code();
            hashes.of(x.0.id)
        };
        let h = |id: u16| hashes.of(id);
        match op {
            Op::Get(k) | Op::FindMut(k) => {
                let id = some!(self.key(k));
                let q = self.mk(id);
                let nv = self.val();
                let (e, g) = (&mut self.e, &mut self.g);
                let table = match &mut self.c {
                    Cont::T(t) => t,
                    _ => unreachable!(),
                };
                let r = if let Op::Get(_) = op {
                    table.find(h(id), |x, e, g| q.eql(&x.0, e, g), e, g)?.map(|x| [x.0.id as u32, x.0.tag, x.1.v])
                } else {
                    let r = table.find_mut(h(id), |x, e, g| q.eql(&x.0, e, g), e, g)?;
                    r.map(|x| {
                        let o = [x.0.id as u32, x.0.tag, x.1.v];
                        x.1.v = nv;
                        o
                    })
                };
                self.real.extend(r.iter().flatten());
                if let Some(r) = r {
                    if let Some(i) = self.by_tag(id, r[1]) {
                        self.exp.extend(self.m[i].words());
                        if let Op::FindMut(_) = op {
                            self.m[i].val = nv;
                        }
                    } else {
                        self.exp.push(0xbad);
                    }
                } else if let Some(i) = self.find(id) {
                    self.exp.extend(self.m[i].words());
                }
            }
            Op::Insert(k) | Op::EntryInsert(k) | Op::EntryOrInsert(k) | Op::EntryOrInsertWith(k) | Op::EntryModify(k) | Op::EntrySym(k) => {
                let id = some!(self.key(k));
                if self.dups(id) {
                    return Ok(false);
                }
                let key = self.mk(id);
                let tag = key.tag;
                let nv = self.val();
                let q = K::<()>::new(id, tag);
                let (e, g) = (&mut self.e, &mut self.g);
                let table = t!();
                let eq = |x: &(K<P>, V<P>), e: &mut Exec, g: &mut Glob| RubyEql::<Exec, Glob, Fault>::eql(&q, &K::<()>::new(x.0.id, x.0.tag), e, g);
                let ent = if let Op::EntrySym(_) = op {
                    table.entry_sym(h(id), |x| x.0.id == id, hasher)
                } else {
                    table.entry(h(id), eq, hasher, e, g)?
                };
                let occupied = matches!(ent, hash_table::Entry::Occupied(_));
                self.real.push(occupied as u32);
                match op {
                    Op::Insert(_) => match ent {
                        hash_table::Entry::Occupied(mut o) => {
                            self.real.extend(kv((&o.get().0, &o.get().1)));
                            o.get_mut().1.v = nv;
                        }
                        hash_table::Entry::Vacant(v) => {
                            let o = v.insert((key, V::new(nv)));
                            self.real.extend(kv((&o.get().0, &o.get().1)));
                        }
                    },
                    Op::EntryInsert(_) => {
                        let o = ent.insert((key, V::new(nv)));
                        self.real.extend(kv((&o.get().0, &o.get().1)));
                    }
                    Op::EntryOrInsert(_) => {
                        let o = ent.or_insert((key, V::new(nv)));
                        self.real.extend(kv((&o.get().0, &o.get().1)));
                    }
                    Op::EntryOrInsertWith(_) => {
                        let o = ent.or_insert_with(|| {
                            user_code();
                            (key, V::new(nv))
                        });
                        let x = o.into_mut();
                        self.real.extend(kv((&x.0, &x.1)));
                    }
                    Op::EntryModify(_) => {
                        let o = ent.and_modify(|x| x.1.v = nv).or_insert((key, V::new(nv)));
                        self.real.extend(kv((&o.get().0, &o.get().1)));
                    }
                    _ => match ent {
                        hash_table::Entry::Occupied(o) => {
                            let t = o.into_table();
                            self.real.push(t.len() as u32);
                        }
                        hash_table::Entry::Vacant(v) => {
                            v.insert((key, V::new(nv)));
                        }
                    },
                }
                let f = self.find(id);
                self.exp.push(f.is_some() as u32);
                match (op, f) {
                    (Op::Insert(_), Some(i)) => {
                        self.exp.extend(self.m[i].words());
                        self.m[i].val = nv;
                    }
                    (Op::EntryInsert(_), Some(i)) => {
                        // the stored value as a whole is replaced
                        self.m[i] = Ent { id, tag, val: nv };
                        self.exp.extend(self.m[i].words());
                    }
                    (Op::EntryOrInsert(_) | Op::EntryOrInsertWith(_), Some(i)) => self.exp.extend(self.m[i].words()),
                    (Op::EntryModify(_), Some(i)) => {
                        self.m[i].val = nv;
                        self.exp.extend(self.m[i].words());
                    }
                    (Op::EntrySym(_), Some(_)) => self.exp.push(self.m.len() as u32),
                    (_, None) => {
                        let x = Ent { id, tag, val: nv };
                        self.m.push(x);
                        if !matches!(op, Op::EntrySym(_)) {
                            self.exp.extend(x.words());
                        }
                    }
                    _ => unreachable!(),
                }
            }
            Op::InsertDup(k) => {
                let id = some!(self.key(k));
                let key = self.mk(id);
                let tag = key.tag;
                let nv = self.val();
                let o = t!().insert_unique(h(id), (key, V::new(nv)), hasher);
                let r = kv((&o.get().0, &o.get().1));
                self.real.extend(r);
                let x = Ent { id, tag, val: nv };
                self.m.push(x);
                self.exp.extend(x.words());
            }
            Op::InsertUnchecked => return self.step_table(Op::InsertDup(Key::New)),
            Op::Remove(k) | Op::EntryRemove(k) | Op::FindEntryRemoveInsert(k) | Op::FindEntryTable(k) => {
                let id = some!(self.key(k));
                if matches!(op, Op::EntryRemove(_)) && self.dups(id) {
                    return Ok(false);
                }
                let q = self.mk(id);
                let key2 = self.mk(id);
                let tag2 = key2.tag;
                let nv = self.val();
                let (e, g) = (&mut self.e, &mut self.g);
                let table = t!();
                let eq = |x: &(K<P>, V<P>), e: &mut Exec, g: &mut Glob| q.eql(&x.0, e, g);
                let mut got: Option<[u32; 3]> = None;
                match op {
                    Op::Remove(_) => match table.find_entry(h(id), eq, e, g)? {
                        Ok(o) => {
                            let ((k, v), vac) = o.remove();
                            got = Some(kv((&k, &v)));
                            self.real.extend(kv((&k, &v)));
                            self.real.push(vac.into_table().len() as u32);
                        }
                        Err(a) => self.real.push(a.into_table().len() as u32),
                    },
                    Op::EntryRemove(_) => match table.entry(h(id), eq, hasher, e, g)? {
                        hash_table::Entry::Occupied(o) => {
                            let ((k, v), vac) = o.remove();
                            got = Some(kv((&k, &v)));
                            self.real.extend(kv((&k, &v)));
                            self.real.push(vac.into_table().len() as u32);
                        }
                        hash_table::Entry::Vacant(v) => self.real.push(v.into_table().len() as u32),
                    },
                    Op::FindEntryRemoveInsert(_) => match table.find_entry(h(id), eq, e, g)? {
                        Ok(o) => {
                            let ((k, v), vac) = o.remove();
                            got = Some(kv((&k, &v)));
                            self.real.extend(kv((&k, &v)));
                            let o = vac.insert((key2, V::new(nv)));
                            self.real.extend(kv((&o.get().0, &o.get().1)));
                            self.real.push(o.into_table().len() as u32);
                        }
                        Err(a) => self.real.push(a.into_table().len() as u32),
                    },
                    _ => match table.find_entry(h(id), eq, e, g)? {
                        Ok(mut o) => {
                            got = Some(kv((&o.get().0, &o.get().1)));
                            o.get_mut().1.v = nv;
                            self.real.push(o.into_table().len() as u32)
                        }
                        Err(a) => self.real.push(a.into_table().len() as u32),
                    },
                }
                let i = match got {
                    Some(r) => self.by_tag(id, r[1]),
                    None => self.find(id),
                };
                if let Some(i) = i {
                    match op {
                        Op::Remove(_) | Op::EntryRemove(_) => {
                            let x = self.removed(i);
                            self.exp.extend(x.words());
                        }
                        Op::FindEntryRemoveInsert(_) => {
                            let x = self.m.remove(i);
                            self.exp.extend(x.words());
                            let x = Ent { id, tag: tag2, val: nv };
                            self.m.push(x);
                            self.exp.extend(x.words());
                        }
                        _ => self.m[i].val = nv,
                    }
                }
                self.exp.push(self.m.len() as u32);
            }
            Op::IterHash(k) | Op::IterHashMut(k) => {
                let id = some!(self.key(k));
                let table = t!();
                let hv = hashes.of(id);
                if let Op::IterHash(_) = op {
                    self.real.extend(table.iter_hash(hv).flat_map(|x| kv((&x.0, &x.1))));
                    let mut again: Vec<u32> = vec![];
                    let mut it = table.iter_hash(hv);
                    while let Some(x) = it.next() {
                        again.extend(kv((&x.0, &x.1)));
                    }
                    if it.next().is_some() || again != self.real {
                        self.real.push(0xbad);
                    }
                } else {
                    self.real.extend(table.iter_hash_mut(hv).flat_map(|x| {
                        x.1.v += 1;
                        [x.0.id as u32, x.0.tag, x.1.v]
                    }));
                }
                // all entries with this hash exactly once; others may appear, each at most once
                let mut r = std::mem::take(&mut self.real);
                if r.len() % 3 == 0 {
                    sort3(&mut r);
                    if let Op::IterHashMut(_) = op {
                        for c in r.chunks(3) {
                            if let Some(i) = self.by_tag(c[0] as u16, c[1]) {
                                self.m[i].val += 1;
                            }
                        }
                    }
                    let pool = self.m.clone();
                    let want: Vec<Ent> = pool.iter().copied().filter(|x| hashes.of(x.id) == hv).collect();
                    let seen: Vec<Ent> = r.chunks(3).map(|c| Ent { id: c[0] as u16, tag: c[1], val: c[2] }).collect();
                    let missing = want.iter().filter(|x| !seen.contains(x)).count();
                    self.real = r.clone();
                    let n = seen.len();
                    self.subset_of(&pool, n);
                    self.real.push(missing as u32);
                    self.exp.push(0);
                } else {
                    self.real = vec![0xbad];
                }
            }
            Op::Clear => {
                t!().clear();
                self.m.clear();
            }
            Op::Reserve(n) => {
                let table = t!();
                table.reserve(n as usize, hasher);
                self.real.push((table.capacity() >= table.len() + n as usize) as u32);
                self.exp.push(1);
            }
            Op::ShrinkToFit => t!().shrink_to_fit(hasher),
            Op::ShrinkTo(n) => {
                let cap0 = self.capacity();
                let table = t!();
                table.shrink_to(n as usize, hasher);
                self.real.push((table.capacity() >= table.len().max(cap0.min(n as usize))) as u32);
                self.exp.push(1);
            }
            Op::Retain(p) => {
                let mut seen = vec![];
                t!().retain(|x| {
                    user_code();
                    seen.extend(kv((&x.0, &x.1)));
                    x.1.v += 1;
                    keep(p, x.0.id, 1)
                });
                sort3(&mut seen);
                self.real = seen;
                self.spec_all();
                self.m.retain(|x| keep(p, x.id, 1));
                self.m.iter_mut().for_each(|x| x.val += 1);
            }
            Op::Drain(take) => {
                let pool = std::mem::take(&mut self.m);
                let mut d = t!().drain();
                let left = d.len();
                let mut r = vec![];
                for _ in 0..take {
                    if let Some(x) = d.next() {
                        r.extend(kv((&x.0, &x.1)));
                    }
                }
                let hint = d.len();
                if take == 255 {
                    let rest: Vec<_> = d.fold(vec![], |mut v, x| {
                        v.extend(kv((&x.0, &x.1)));
                        v
                    });
                    r.extend(rest);
                } else {
                    drop(d);
                }
                self.real = r;
                let n = if take == 255 { pool.len() } else { pool.len().min(take as usize) };
                self.subset_of(&pool, n);
                self.real.extend([left as u32, hint as u32]);
                self.exp.extend([pool.len() as u32, (pool.len() - pool.len().min(take as usize)) as u32]);
            }
            Op::Extract(p, take) => {
                let mut seen = 0u32;
                let mut r = vec![];
                {
                    let mut it = t!().extract_if(|x| {
                        user_code();
                        seen += 1;
                        !keep(p, x.0.id, 1)
                    });
                    for _ in 0..take {
                        match it.next() {
                            Some(x) => r.extend(kv((&x.0, &x.1))),
                            None => break,
                        }
                    }
                }
                let pool: Vec<Ent> = self.m.iter().copied().filter(|x| !keep(p, x.id, 1)).collect();
                let n = pool.len().min(take as usize);
                for c in r.chunks(3) {
                    if let Some(i) = self.by_tag(c[0] as u16, c[1]) {
                        self.m.remove(i);
                    }
                }
                self.real = r;
                self.subset_of(&pool, n);
                let _ = seen;
            }
            Op::Clone => {
                let c = t!().clone();
                let old = std::mem::replace(&mut self.c, Cont::T(c));
                drop(old);
            }
            Op::CloneFrom(kind) => {
                let src = match &self.c {
                    Cont::T(t) => t,
                    _ => unreachable!(),
                };
                let mut dst: Table<P> = HashTable::with_capacity([0, 3, 100][kind as usize % 3]);
                for i in 0..[0, 2, 40][kind as usize % 3] {
                    dst.insert_unique(h(600), (K::new(600, i), V::new(i)), hasher);
                }
                dst.clone_from(src);
                self.c = Cont::T(dst);
            }
            Op::Rebuild(k) => {
                let old = std::mem::replace(t!(), HashTable::new());
                let items: Vec<(K<P>, V<P>)> = match k {
                    0 => old.into_iter().collect(),
                    _ => old.into_iter().fold(vec![], |mut v, x| {
                        v.push(x);
                        v
                    }),
                };
                self.real = items.iter().flat_map(|x| kv((&x.0, &x.1))).collect();
                sort3(&mut self.real);
                self.spec_all();
                let table = t!();
                for x in items {
                    table.insert_unique(h(x.0.id), x, hasher);
                }
            }
            Op::Iter => {
                let table = t!();
                let a: Vec<u32> = table.iter().flat_map(|x| kv((&x.0, &x.1))).collect();
                let b: Vec<u32> = (&*table).into_iter().fold(vec![], |mut v, x| {
                    v.extend(kv((&x.0, &x.1)));
                    v
                });
                self.real = check_iter(table.iter(), |x| kv((&x.0, &x.1)), a, b);
                self.spec_all();
            }
            Op::IterMut => {
                let table = t!();
                self.real = table
                    .iter_mut()
                    .flat_map(|x| {
                        x.1.v += 1;
                        [x.0.id as u32, x.0.tag, x.1.v]
                    })
                    .collect();
                (&mut *table).into_iter().for_each(|x| x.1.v += 1);
                sort3(&mut self.real);
                self.m.iter_mut().for_each(|x| x.val += 1);
                self.spec_all();
                self.m.iter_mut().for_each(|x| x.val += 1);
            }
            _ => return Ok(false),
        }
        Ok(true)
    }

    fn step_map(&mut self, op: Op) -> Result<bool, Fault> {
        macro_rules! some {
            ($e:expr) => {
                match $e {
                    Some(x) => x,
                    None => return Ok(false),
                }
            };
        }
        macro_rules! t {
            () => {
                match &mut self.c {
                    Cont::M(t) => t,
                    _ => unreachable!(),
                }
            };
        }
        use hash_map::Entry as HE;
        match op {
            Op::Get(k) | Op::GetKeyValue(k) | Op::Contains(k) | Op::FindMut(k) | Op::GetKeyValueMut(k) => {
                let id = some!(self.key(k));
                let q = self.mk(id);
                let nv = self.val();
                let (e, g) = (&mut self.e, &mut self.g);
                let m = t!();
                match op {
                    Op::Get(_) => self.real.extend(m.get(&q, e, g)?.map(|v| v.v)),
                    Op::GetKeyValue(_) => self.real.extend(m.get_key_value(&q, e, g)?.iter().flat_map(|x| kv(*x))),
                    Op::Contains(_) => self.real.push(m.contains_key(&q, e, g)? as u32),
                    Op::FindMut(_) => {
                        if let Some(v) = m.get_mut(&q, e, g)? {
                            self.real.push(v.v);
                            v.v = nv;
                        }
                    }
                    _ => {
                        if let Some((k, v)) = m.get_key_value_mut(&q, e, g)? {
                            self.real.extend([k.id as u32, k.tag, v.v]);
                            v.v = nv;
                        }
                    }
                }
                let f = self.find(id);
                if let Op::Contains(_) = op {
                    self.exp.push(f.is_some() as u32);
                } else if let Some(i) = f {
                    match op {
                        Op::Get(_) | Op::FindMut(_) => self.exp.push(self.m[i].val),
                        _ => self.exp.extend(self.m[i].words()),
                    }
                    if let Op::FindMut(_) | Op::GetKeyValueMut(_) = op {
                        self.m[i].val = nv;
                    }
                }
            }
            Op::Insert(k) => {
                let id = some!(self.key(k));
                let key = self.mk(id);
                let (tag, nv) = (key.tag, self.val());
                let (e, g) = (&mut self.e, &mut self.g);
                let r = t!().insert(key, V::new(nv), e, g)?;
                self.real.extend(r.map(|v| v.v));
                let old = self.spec_put(id, tag, nv);
                self.exp.extend(old.map(|x| x.val));
            }
            Op::InsertUnchecked => {
                let id = some!(self.key(Key::New));
                let key = self.mk(id);
                let (tag, nv) = (key.tag, self.val());
                let (k, v) = unsafe { t!().insert_unique_unchecked(key, V::new(nv)) };
                let r = [k.id as u32, k.tag, v.v];
                self.real.extend(r);
                self.spec_put(id, tag, nv);
                self.exp.extend([id as u32, tag, nv]);
            }
            Op::TryInsert(k) => {
                let id = some!(self.key(k));
                let key = self.mk(id);
                let (tag, nv) = (key.tag, self.val());
                let (e, g) = (&mut self.e, &mut self.g);
                match t!().try_insert(key, V::new(nv), e, g)? {
                    Ok(v) => self.real.extend([1, v.v]),
                    Err(x) => self.real.extend([0, x.value.v, x.entry.key().tag, x.entry.get().v]),
                }
                match self.find(id) {
                    Some(i) => self.exp.extend([0, nv, self.m[i].tag, self.m[i].val]),
                    None => {
                        self.spec_put(id, tag, nv);
                        self.exp.extend([1, nv]);
                    }
                }
            }
            Op::Remove(k) | Op::RemoveEntry(k) => {
                let id = some!(self.key(k));
                let q = self.mk(id);
                let (e, g) = (&mut self.e, &mut self.g);
                let m = t!();
                if let Op::Remove(_) = op {
                    self.real.extend(m.remove(&q, e, g)?.map(|v| v.v));
                } else {
                    self.real.extend(m.remove_entry(&q, e, g)?.iter().flat_map(|x| kv((&x.0, &x.1))));
                }
                if let Some(i) = self.find(id) {
                    let x = self.removed(i);
                    if let Op::Remove(_) = op {
                        self.exp.push(x.val);
                    } else {
                        self.exp.extend(x.words());
                    }
                }
            }
            Op::EntryInsert(k) | Op::EntryOrInsert(k) | Op::EntryOrInsertWith(k) | Op::EntryOrInsertWithKey(k) | Op::EntryOrDefault(k) | Op::EntryModify(k) | Op::EntryReplace(k, _)
            | Op::EntryRemove(k) | Op::OccReplace(k, _) | Op::OccInsert(k) | Op::OccRemoveEntry(k) | Op::VacEntry(k) => {
                let id = some!(self.key(k));
                let key = self.mk(id);
                let (tag, nv) = (key.tag, self.val());
                let (e, g) = (&mut self.e, &mut self.g);
                let ent = t!().entry(key, e, g)?;
                // while a handle is held the key shown is the stored one, or the given one if absent
                self.real.push(ent.key().id as u32);
                match op {
                    Op::EntryInsert(_) => {
                        let o = ent.insert(V::new(nv));
                        self.real.extend([o.key().tag, o.get().v]);
                    }
                    Op::EntryOrInsert(_) => {
                        let v = ent.or_insert(V::new(nv));
                        self.real.push(v.v);
                        v.v += 1;
                    }
                    Op::EntryOrInsertWith(_) => {
                        let v = ent.or_insert_with(|| {
                            user_code();
                            V::new(nv)
                        });
                        self.real.push(v.v);
                        v.v += 1;
                    }
                    Op::EntryOrInsertWithKey(_) => {
                        let v = ent.or_insert_with_key(|k| {
                            user_code();
                            V::new(nv + k.id as u32)
                        });
                        self.real.push(v.v);
                    }
                    Op::EntryOrDefault(_) => {
                        let v = ent.or_default();
                        self.real.push(v.v);
                        v.v = nv;
                    }
                    Op::EntryModify(_) => {
                        let v = ent
                            .and_modify(|v| {
                                user_code();
                                v.v = nv
                            })
                            .or_insert_with(|| V::new(nv));
                        self.real.push(v.v);
                    }
                    Op::EntryReplace(_, keep) => match ent.and_replace_entry_with(|k, v| {
                        user_code();
                        let _ = (k.id, v.v);
                        keep.then(|| V::new(nv))
                    }) {
                        HE::Occupied(o) => self.real.extend([1, o.key().tag, o.get().v]),
                        HE::Vacant(v) => self.real.extend([0, v.key().id as u32]),
                    },
                    _ => match ent {
                        HE::Occupied(mut o) => match op {
                            Op::EntryRemove(_) => {
                                let v = o.remove();
                                self.real.extend([1, v.v]);
                            }
                            Op::OccRemoveEntry(_) => {
                                let (k, v) = o.remove_entry();
                                self.real.extend(kv((&k, &v)));
                            }
                            Op::OccInsert(_) => {
                                let v = o.insert(V::new(nv));
                                self.real.extend([1, v.v, o.get().v]);
                                o.get_mut().v += 1;
                                let v = o.into_mut();
                                self.real.push(v.v);
                            }
                            Op::OccReplace(_, keep) => match o.replace_entry_with(|k, v| {
                                user_code();
                                let _ = k.id;
                                keep.then(|| V { v: nv, p: v.p })
                            }) {
                                HE::Occupied(o) => self.real.extend([1, o.key().tag, o.get().v]),
                                HE::Vacant(v) => {
                                    let v = v.insert(V::new(nv + 1));
                                    self.real.extend([0, v.v]);
                                }
                            },
                            _ => self.real.push(7),
                        },
                        HE::Vacant(v) => match op {
                            Op::OccInsert(_) => {
                                let k = v.into_key();
                                self.real.extend([0, k.id as u32, k.tag]);
                            }
                            Op::VacEntry(_) => {
                                let o = v.insert_entry(V::new(nv));
                                let o = [o.key().tag, o.get().v];
                                self.real.extend(o);
                            }
                            _ => self.real.push(8),
                        },
                    },
                }
                let f = self.find(id);
                self.exp.push(id as u32);
                let exp = &mut self.exp;
                let m = &mut self.m;
                match (op, f) {
                    (Op::EntryInsert(_), Some(i)) => {
                        m[i].val = nv;
                        exp.extend([m[i].tag, nv]);
                    }
                    (Op::EntryInsert(_), None) => {
                        m.push(Ent { id, tag, val: nv });
                        exp.extend([tag, nv]);
                    }
                    (Op::EntryOrInsert(_) | Op::EntryOrInsertWith(_), Some(i)) => {
                        exp.push(m[i].val);
                        m[i].val += 1;
                    }
                    (Op::EntryOrInsert(_) | Op::EntryOrInsertWith(_), None) => {
                        exp.push(nv);
                        m.push(Ent { id, tag, val: nv + 1 });
                    }
                    (Op::EntryOrInsertWithKey(_), Some(i)) => exp.push(m[i].val),
                    (Op::EntryOrInsertWithKey(_), None) => {
                        exp.push(nv + id as u32);
                        m.push(Ent { id, tag, val: nv + id as u32 });
                    }
                    (Op::EntryOrDefault(_), Some(i)) => {
                        exp.push(m[i].val);
                        m[i].val = nv;
                    }
                    (Op::EntryOrDefault(_), None) => {
                        exp.push(4_000_000);
                        m.push(Ent { id, tag, val: nv });
                    }
                    (Op::EntryModify(_), Some(i)) => {
                        m[i].val = nv;
                        exp.push(nv);
                    }
                    (Op::EntryModify(_), None) => {
                        m.push(Ent { id, tag, val: nv });
                        exp.push(nv);
                    }
                    (Op::EntryReplace(_, true), Some(i)) => {
                        m[i].val = nv;
                        exp.extend([1, m[i].tag, nv]);
                    }
                    (Op::EntryReplace(_, false), Some(i)) => {
                        m.remove(i);
                        exp.extend([0, id as u32]);
                        self.gone = Some(id);
                    }
                    (Op::EntryReplace(..), None) => exp.extend([0, id as u32]),
                    (Op::EntryRemove(_), Some(i)) => {
                        exp.extend([1, m[i].val]);
                        m.remove(i);
                        self.gone = Some(id);
                    }
                    (Op::OccRemoveEntry(_), Some(i)) => {
                        exp.extend(m[i].words());
                        m.remove(i);
                        self.gone = Some(id);
                    }
                    (Op::OccInsert(_), Some(i)) => {
                        exp.extend([1, m[i].val, nv, nv + 1]);
                        m[i].val = nv + 1;
                    }
                    (Op::OccInsert(_), None) => exp.extend([0, id as u32, tag]),
                    (Op::OccReplace(_, true), Some(i)) => {
                        m[i].val = nv;
                        exp.extend([1, m[i].tag, nv]);
                    }
                    (Op::OccReplace(_, false), Some(i)) => {
                        // removed and put back under the same stored key
                        let t = m[i].tag;
                        m.remove(i);
                        m.push(Ent { id, tag: t, val: nv + 1 });
                        exp.extend([0, nv + 1]);
                    }
                    (Op::VacEntry(_), None) => {
                        m.push(Ent { id, tag, val: nv });
                        exp.extend([tag, nv]);
                    }
                    (_, Some(_)) => exp.push(7),
                    (_, None) => exp.push(8),
                }
            }
            Op::RefInsert(k) | Op::RefOrInsert(k) | Op::RefOrInsertWith(k) | Op::RefOrInsertWithKey(k) | Op::RefOrDefault(k) | Op::RefModify(k) | Op::RefVacEntry(k) => {
                let id = some!(self.key(k));
                let key = self.mk(id);
                let (tag, nv) = (key.tag, self.val());
                let (e, g) = (&mut self.e, &mut self.g);
                let ent = t!().entry_ref(&key, e, g)?;
                self.real.push(ent.key().id as u32);
                match op {
                    Op::RefInsert(_) => {
                        let o = ent.insert(V::new(nv));
                        self.real.push(o.get().v);
                    }
                    Op::RefOrInsert(_) => self.real.push(ent.or_insert(V::new(nv)).v),
                    Op::RefOrInsertWith(_) => self.real.push(ent.or_insert_with(|| V::new(nv)).v),
                    Op::RefOrInsertWithKey(_) => self.real.push(ent.or_insert_with_key(|k| V::new(nv + k.id as u32)).v),
                    Op::RefOrDefault(_) => self.real.push(ent.or_default().v),
                    Op::RefModify(_) => {
                        if let hash_map::EntryRef::Occupied(o) = ent.and_modify(|v| v.v = nv) {
                            self.real.push(o.get().v);
                        }
                    }
                    _ => match ent {
                        hash_map::EntryRef::Occupied(o) => {
                            self.real.extend([1, o.get().v]);
                        }
                        hash_map::EntryRef::Vacant(v) => {
                            self.real.push(v.key().tag);
                            let o = v.insert_entry(V::new(nv));
                            self.real.push(o.get().v);
                        }
                    },
                }
                let f = self.find(id);
                self.exp.push(id as u32);
                let (exp, m) = (&mut self.exp, &mut self.m);
                match (op, f) {
                    (Op::RefInsert(_), Some(i)) => {
                        m[i].val = nv;
                        exp.push(nv);
                    }
                    (Op::RefInsert(_) | Op::RefOrInsert(_) | Op::RefOrInsertWith(_), None) => {
                        m.push(Ent { id, tag, val: nv });
                        exp.push(nv);
                    }
                    (Op::RefOrInsertWithKey(_), None) => {
                        m.push(Ent { id, tag, val: nv + id as u32 });
                        exp.push(nv + id as u32);
                    }
                    (Op::RefOrDefault(_), None) => {
                        m.push(Ent { id, tag, val: 4_000_000 });
                        exp.push(4_000_000);
                    }
                    (Op::RefModify(_), Some(i)) => {
                        m[i].val = nv;
                        exp.push(nv);
                    }
                    (Op::RefModify(_), None) => {}
                    (Op::RefVacEntry(_), Some(i)) => exp.extend([1, m[i].val]),
                    (Op::RefVacEntry(_), None) => {
                        m.push(Ent { id, tag, val: nv });
                        exp.extend([tag, nv]);
                    }
                    (_, Some(i)) => exp.push(m[i].val),
                    (_, None) => unreachable!(),
                }
            }
            Op::Clear => {
                t!().clear();
                self.m.clear();
            }
            Op::Reserve(n) => {
                let m = t!();
                m.reserve(n as usize);
                self.real.push((m.capacity() >= m.len() + n as usize) as u32);
                self.exp.push(1);
            }
            Op::ShrinkToFit => t!().shrink_to_fit(),
            Op::ShrinkTo(n) => {
                let cap0 = self.capacity();
                let m = t!();
                m.shrink_to(n as usize);
                self.real.push((m.capacity() >= m.len().max(cap0.min(n as usize))) as u32);
                self.exp.push(1);
            }
            Op::Retain(p) => {
                let mut seen = vec![];
                t!().retain(|k, v| {
                    user_code();
                    seen.extend(kv((k, &*v)));
                    v.v += 1;
                    keep(p, k.id, 1)
                });
                sort3(&mut seen);
                self.real = seen;
                self.spec_all();
                self.m.retain(|x| keep(p, x.id, 1));
                self.m.iter_mut().for_each(|x| x.val += 1);
            }
            Op::Drain(take) => {
                let pool = std::mem::take(&mut self.m);
                let mut d = t!().drain();
                let left = d.len();
                let mut r = vec![];
                for _ in 0..take {
                    if let Some(x) = d.next() {
                        r.extend(kv((&x.0, &x.1)));
                    }
                }
                let hint = d.len();
                if take == 255 {
                    r.extend(d.flat_map(|x| kv((&x.0, &x.1))));
                } else {
                    drop(d);
                }
                self.real = r;
                let n = if take == 255 { pool.len() } else { pool.len().min(take as usize) };
                self.subset_of(&pool, n);
                self.real.extend([left as u32, hint as u32]);
                self.exp.extend([pool.len() as u32, (pool.len() - pool.len().min(take as usize)) as u32]);
            }
            Op::Extract(p, take) => {
                let mut r = vec![];
                {
                    let mut it = t!().extract_if(|k, v| {
                        user_code();
                        let _ = v.v;
                        !keep(p, k.id, 1)
                    });
                    for _ in 0..take {
                        match it.next() {
                            Some(x) => r.extend(kv((&x.0, &x.1))),
                            None => break,
                        }
                    }
                }
                let pool: Vec<Ent> = self.m.iter().copied().filter(|x| !keep(p, x.id, 1)).collect();
                let n = pool.len().min(take as usize);
                for c in r.chunks(3) {
                    if let Some(i) = self.by_tag(c[0] as u16, c[1]) {
                        self.m.remove(i);
                    }
                }
                self.real = r;
                self.subset_of(&pool, n);
            }
            Op::Clone => {
                let c = t!().clone();
                self.c = Cont::M(c);
            }
            Op::CloneFrom(kind) => {
                let mut dst: Map<P> = HashMap::with_capacity_and_hasher([0, 3, 100][kind as usize % 3], Prof(self.profile));
                for i in 0..[0u16, 2, 40][kind as usize % 3] {
                    dst.insert(K::new(500 + i, 0), V::new(0), &mut self.e, &mut self.g)?;
                }
                dst.clone_from(t!());
                self.c = Cont::M(dst);
            }
            Op::Rebuild(k) => {
                let m = t!();
                let old = std::mem::replace(m, HashMap::with_hasher(Prof(self.profile)));
                let items: Vec<(K<P>, V<P>)> = match k {
                    0 => old.into_iter().collect(),
                    _ => old.into_iter().fold(vec![], |mut v, x| {
                        v.push(x);
                        v
                    }),
                };
                self.real = items.iter().flat_map(|x| kv((&x.0, &x.1))).collect();
                sort3(&mut self.real);
                self.spec_all();
                let (e, g) = (&mut self.e, &mut self.g);
                t!().extend(items, e, g)?;
            }
            Op::Extend => {
                let mut items = vec![];
                let mut spec = vec![];
                for k in [Key::New, Key::First, Key::New, Key::Last, Key::New] {
                    if let Some(id) = self.key(k) {
                        let key = self.mk(id);
                        let v = self.val();
                        spec.push((id, key.tag, v));
                        items.push((key, V::new(v)));
                    }
                }
                let (e, g) = (&mut self.e, &mut self.g);
                t!().extend(items, e, g)?;
                for (id, tag, v) in spec {
                    self.spec_put(id, tag, v);
                }
            }
            Op::FromIter => {
                // the same keys again (with other copies) and one more: the first copies stay, the last values win
                let extra = some!(self.key(Key::New));
                let mut items: Vec<(K<P>, V<P>)> = t!().drain().collect();
                let ids: Vec<u16> = items.iter().map(|x| x.0.id).chain([extra]).collect();
                for id in ids {
                    let key = self.mk(id);
                    let (tag, v) = (key.tag, self.val());
                    items.push((key, V::new(v)));
                    self.spec_put(id, tag, v);
                }
                self.c = Cont::M(HashMap::from_iter(items, &mut self.e, &mut self.g)?);
            }
            Op::Iter => {
                let m = t!();
                let a: Vec<u32> = m.iter().flat_map(kv).collect();
                let b: Vec<u32> = (&*m).into_iter().fold(vec![], |mut v, x| {
                    v.extend(kv(x));
                    v
                });
                self.real = check_iter(m.iter(), kv, a, b);
                self.spec_all();
            }
            Op::IterMut => {
                let m = t!();
                self.real = m
                    .iter_mut()
                    .flat_map(|(k, v)| {
                        v.v += 1;
                        [k.id as u32, k.tag, v.v]
                    })
                    .collect();
                (&mut *m).into_iter().fold((), |_, (_, v)| v.v += 1);
                sort3(&mut self.real);
                self.m.iter_mut().for_each(|x| x.val += 1);
                self.spec_all();
                self.m.iter_mut().for_each(|x| x.val += 1);
            }
            Op::KeysValues => {
                let m = t!();
                let k: Vec<u32> = m.keys().map(|k| k.tag).collect();
                let v: Vec<u32> = m.values().map(|v| v.v).collect();
                let ids: Vec<u32> = m.keys().fold(vec![], |mut x, k| {
                    x.push(k.id as u32);
                    x
                });
                let lens = [m.keys().len(), m.values().len(), m.keys().clone().count(), m.values().clone().count()];
                self.real = (0..k.len().min(v.len())).flat_map(|i| [ids[i], k[i], v[i]]).collect();
                sort3(&mut self.real);
                self.real.extend(lens.map(|x| x as u32));
                self.spec_all();
                self.exp.extend([self.m.len() as u32; 4]);
            }
            Op::ValuesMut => {
                let m = t!();
                self.real.push(m.values_mut().len() as u32);
                m.values_mut().for_each(|v| v.v += 3);
                let mut it = m.values_mut();
                let mut n = 0;
                while let Some(v) = it.next() {
                    v.v += 1;
                    n += 1;
                }
                self.real.push(n);
                self.exp.extend([self.m.len() as u32; 2]);
                self.m.iter_mut().for_each(|x| x.val += 4);
            }
            Op::IntoKeys | Op::IntoValues => {
                let m = t!();
                let old = std::mem::replace(m, HashMap::with_hasher(Prof(self.profile)));
                if op == Op::IntoKeys {
                    let mut k: Vec<u32> = old.into_keys().map(|k| k.tag).collect();
                    k.sort();
                    self.real = k;
                    self.exp = self.m.iter().map(|x| x.tag).collect();
                } else {
                    let mut k: Vec<u32> = old.into_values().map(|k| k.v).collect();
                    k.sort();
                    self.real = k;
                    self.exp = self.m.iter().map(|x| x.val).collect();
                }
                self.exp.sort();
                self.m.clear();
            }
            Op::EqlCopy => {
                let extra = some!(self.key(Key::New));
                let ids: Vec<(u16, u32)> = self.m.iter().map(|x| (x.id, x.val)).collect();
                let mut o: Map<P> = HashMap::with_hasher(Prof(self.profile));
                for (id, v) in ids.iter().rev() {
                    o.insert(K::new(*id, 0), V::new(*v), &mut self.e, &mut self.g)?;
                }
                let (e, g) = (&mut self.e, &mut self.g);
                let m = t!();
                self.real.push(m.eql(&o, e, g)? as u32);
                self.exp.push(1);
                if let Some((id, v)) = ids.last() {
                    o.insert(K::new(*id, 0), V::new(*v + 1), e, g)?;
                    self.real.push(m.eql(&o, e, g)? as u32);
                    self.exp.push(0);
                    o.insert(K::new(*id, 0), V::new(*v), e, g)?;
                    self.real.push(m.eql(&o, e, g)? as u32);
                    self.exp.push(1);
                }
                o.insert(K::new(extra, 0), V::new(1), e, g)?;
                self.real.push(m.eql(&o, e, g)? as u32);
                self.real.push(o.eql(m, e, g)? as u32);
                self.exp.extend([0, 0]);
                if let Some((id, _)) = ids.first() {
                    o.remove(&K::new(*id, 0), e, g)?;
                    self.real.push(m.eql(&o, e, g)? as u32);
                    self.exp.push(0);
                }
            }
            _ => return Ok(false),
        }
        Ok(true)
    }

    fn step_set(&mut self, op: Op) -> Result<bool, Fault> {
        macro_rules! some {
            ($e:expr) => {
                match $e {
                    Some(x) => x,
                    None => return Ok(false),
                }
            };
        }
        macro_rules! t {
            () => {
                match &mut self.c {
                    Cont::S(t) => t,
                    _ => unreachable!(),
                }
            };
        }
        fn kw<P>(k: &K<P>) -> [u32; 3] {
            [k.id as u32, k.tag, 0]
        }
        match op {
            Op::Get(k) | Op::Contains(k) => {
                let id = some!(self.key(k));
                let q = self.mk(id);
                let (e, g) = (&mut self.e, &mut self.g);
                let s = t!();
                if let Op::Get(_) = op {
                    self.real.extend(s.get(&q, e, g)?.iter().flat_map(|k| kw(k)));
                } else {
                    self.real.push(s.contains(&q, e, g)? as u32);
                }
                let f = self.find(id);
                if let Op::Get(_) = op {
                    self.exp.extend(f.iter().flat_map(|i| self.m[*i].words()));
                } else {
                    self.exp.push(f.is_some() as u32);
                }
            }
            Op::Insert(k) | Op::Replace(k) | Op::GetOrInsert(k) | Op::GetOrInsertWith(k) | Op::EntryInsert(k) | Op::EntryOrInsert(k) | Op::VacEntry(k) => {
                let id = some!(self.key(k));
                let key = self.mk(id);
                let tag = key.tag;
                let (e, g) = (&mut self.e, &mut self.g);
                let s = t!();
                match op {
                    Op::Insert(_) => self.real.push(s.insert(key, e, g)? as u32),
                    Op::Replace(_) => self.real.extend(s.replace(key, e, g)?.iter().flat_map(kw)),
                    Op::GetOrInsert(_) => self.real.extend(kw(s.get_or_insert(key, e, g)?)),
                    Op::GetOrInsertWith(_) => self.real.extend(kw(s.get_or_insert_with(&key, |k| {
                        user_code();
                        K::new(k.id, k.tag)
                    }, e, g)?)),
                    Op::EntryInsert(_) => {
                        let ent = s.entry(key, e, g)?;
                        self.real.push(ent.get().id as u32);
                        self.real.extend(kw(ent.insert().get()));
                    }
                    Op::EntryOrInsert(_) => s.entry(key, e, g)?.or_insert(),
                    _ => match s.entry(key, e, g)? {
                        hash_set::Entry::Vacant(v) => {
                            self.real.extend(kw(v.get()));
                            let k = v.into_value();
                            self.real.extend(kw(&k));
                        }
                        hash_set::Entry::Occupied(o) => self.real.extend(kw(o.get())),
                    },
                }
                let f = self.find(id);
                match op {
                    Op::VacEntry(_) => match f {
                        Some(i) => self.exp.extend(self.m[i].words()),
                        None => self.exp.extend([id as u32, tag, 0, id as u32, tag, 0]),
                    },
                    _ => {
                        let old = f.map(|i| self.m[i]);
                        match f {
                            Some(i) => {
                                if let Op::Replace(_) = op {
                                    self.m[i].tag = tag;
                                }
                            }
                            None => self.m.push(Ent { id, tag, val: 0 }),
                        }
                        match op {
                            Op::Insert(_) => self.exp.push(old.is_none() as u32),
                            Op::Replace(_) => self.exp.extend(old.iter().flat_map(|x| x.words())),
                            Op::GetOrInsert(_) | Op::GetOrInsertWith(_) => {
                                let i = self.find(id).unwrap();
                                self.exp.extend(self.m[i].words());
                            }
                            Op::EntryInsert(_) => {
                                self.exp.push(id as u32);
                                let i = self.find(id).unwrap();
                                self.exp.extend(self.m[i].words());
                            }
                            _ => {}
                        }
                    }
                }
            }
            Op::GetOrInsertWithOther => {
                // a value that is not equivalent to the probe is refused; the set stays as it was
                let id = some!(self.key(Key::New));
                let key = self.mk(id);
                let (e, g) = (&mut self.e, &mut self.g);
                let s = t!();
                let r = catch_unwind(AssertUnwindSafe(|| s.get_or_insert_with(&key, |_| K::new(590, 0), e, g).map(|k| k.id)));
                match r {
                    Ok(Ok(_)) => self.real.push(0),
                    Ok(Err(f)) => return Err(f),
                    Err(_) => self.real.push(PANIC),
                }
                self.exp.push(PANIC);
            }
            Op::InsertUnchecked => {
                let id = some!(self.key(Key::New));
                let key = self.mk(id);
                let tag = key.tag;
                let r = kw(unsafe { t!().insert_unique_unchecked(key) });
                self.real.extend(r);
                self.m.push(Ent { id, tag, val: 0 });
                self.exp.extend([id as u32, tag, 0]);
            }
            Op::Remove(k) | Op::Take(k) | Op::EntryRemove(k) => {
                let id = some!(self.key(k));
                let q = self.mk(id);
                let (e, g) = (&mut self.e, &mut self.g);
                let s = t!();
                match op {
                    Op::Remove(_) => self.real.push(s.remove(&q, e, g)? as u32),
                    Op::Take(_) => self.real.extend(s.take(&q, e, g)?.iter().flat_map(kw)),
                    _ => match s.entry(q, e, g)? {
                        hash_set::Entry::Occupied(o) => self.real.extend(kw(&o.remove())),
                        hash_set::Entry::Vacant(_) => {}
                    },
                }
                let f = self.find(id);
                let x = f.map(|i| self.removed(i));
                match op {
                    Op::Remove(_) => self.exp.push(f.is_some() as u32),
                    _ => self.exp.extend(x.iter().flat_map(|x| x.words())),
                }
            }
            Op::Clear => {
                t!().clear();
                self.m.clear();
            }
            Op::Reserve(n) => {
                let m = t!();
                m.reserve(n as usize);
                self.real.push((m.capacity() >= m.len() + n as usize) as u32);
                self.exp.push(1);
            }
            Op::ShrinkToFit => t!().shrink_to_fit(),
            Op::ShrinkTo(n) => {
                let cap0 = self.capacity();
                let m = t!();
                m.shrink_to(n as usize);
                self.real.push((m.capacity() >= m.len().max(cap0.min(n as usize))) as u32);
                self.exp.push(1);
            }
            Op::Retain(p) => {
                let mut seen = vec![];
                t!().retain(|k| {
                    user_code();
                    seen.extend(kw(k));
                    keep(p, k.id, 1)
                });
                sort3(&mut seen);
                self.real = seen;
                self.spec_all();
                self.m.retain(|x| keep(p, x.id, 1));
            }
            Op::Drain(take) => {
                let pool = std::mem::take(&mut self.m);
                let mut d = t!().drain();
                let left = d.len();
                let mut r = vec![];
                for _ in 0..take {
                    if let Some(x) = d.next() {
                        r.extend(kw(&x));
                    }
                }
                let hint = d.len();
                if take == 255 {
                    r.extend(d.flat_map(|x| kw(&x)));
                } else {
                    drop(d);
                }
                self.real = r;
                let n = if take == 255 { pool.len() } else { pool.len().min(take as usize) };
                self.subset_of(&pool, n);
                self.real.extend([left as u32, hint as u32]);
                self.exp.extend([pool.len() as u32, (pool.len() - pool.len().min(take as usize)) as u32]);
            }
            Op::Extract(p, take) => {
                let mut r = vec![];
                {
                    let mut it = t!().extract_if(|k| {
                        user_code();
                        !keep(p, k.id, 1)
                    });
                    for _ in 0..take {
                        match it.next() {
                            Some(x) => r.extend(kw(&x)),
                            None => break,
                        }
                    }
                }
                let pool: Vec<Ent> = self.m.iter().copied().filter(|x| !keep(p, x.id, 1)).collect();
                let n = pool.len().min(take as usize);
                for c in r.chunks(3) {
                    if let Some(i) = self.by_tag(c[0] as u16, c[1]) {
                        self.m.remove(i);
                    }
                }
                self.real = r;
                self.subset_of(&pool, n);
            }
            Op::Clone => {
                let c = t!().clone();
                self.c = Cont::S(c);
            }
            Op::CloneFrom(kind) => {
                let mut dst: Set<P> = HashSet::with_capacity_and_hasher([0, 3, 100][kind as usize % 3], Prof(self.profile));
                for i in 0..[0u16, 2, 40][kind as usize % 3] {
                    dst.insert(K::new(500 + i, 0), &mut self.e, &mut self.g)?;
                }
                dst.clone_from(t!());
                self.c = Cont::S(dst);
            }
            Op::Rebuild(k) => {
                let s = t!();
                let old = std::mem::replace(s, HashSet::with_hasher(Prof(self.profile)));
                let items: Vec<K<P>> = match k {
                    0 => old.into_iter().collect(),
                    _ => old.into_iter().fold(vec![], |mut v, x| {
                        v.push(x);
                        v
                    }),
                };
                self.real = items.iter().flat_map(kw).collect();
                sort3(&mut self.real);
                self.spec_all();
                let (e, g) = (&mut self.e, &mut self.g);
                t!().extend(items, e, g)?;
            }
            Op::Extend => {
                let mut items = vec![];
                let mut spec = vec![];
                for k in [Key::New, Key::First, Key::New, Key::Last, Key::New] {
                    if let Some(id) = self.key(k) {
                        let key = self.mk(id);
                        spec.push((id, key.tag));
                        items.push(key);
                    }
                }
                let (e, g) = (&mut self.e, &mut self.g);
                t!().extend(items, e, g)?;
                for (id, tag) in spec {
                    self.spec_put(id, tag, 0);
                }
            }
            Op::FromMap => {
                let mut m: HashMap<K<P>, (), Exec, Glob, Fault, Prof> = HashMap::with_hasher(Prof(self.profile));
                let items: Vec<K<P>> = t!().drain().collect();
                for k in items {
                    m.insert(k, (), &mut self.e, &mut self.g)?;
                }
                self.c = Cont::S(HashSet::from(m));
            }
            Op::FromIter => {
                let extra = some!(self.key(Key::New));
                let mut items: Vec<K<P>> = t!().drain().collect();
                let ids: Vec<u16> = items.iter().map(|x| x.id).chain([extra]).collect();
                for id in ids {
                    let key = self.mk(id);
                    let tag = key.tag;
                    items.push(key);
                    self.spec_put(id, tag, 0);
                }
                self.c = Cont::S(HashSet::from_iter(items, &mut self.e, &mut self.g)?);
            }
            Op::Iter => {
                let s = t!();
                let a: Vec<u32> = s.iter().flat_map(kw).collect();
                let b: Vec<u32> = (&*s).into_iter().fold(vec![], |mut v, x| {
                    v.extend(kw(x));
                    v
                });
                self.real = check_iter(s.iter(), kw, a, b);
                self.spec_all();
            }
            Op::EqlCopy => {
                let extra = some!(self.key(Key::New));
                let ids: Vec<u16> = self.m.iter().map(|x| x.id).collect();
                let mut o: Set<P> = HashSet::with_hasher(Prof(self.profile));
                for id in ids.iter().rev() {
                    o.insert(K::new(*id, 0), &mut self.e, &mut self.g)?;
                }
                let (e, g) = (&mut self.e, &mut self.g);
                let s = t!();
                self.real.extend([s.eql(&o, e, g)? as u32, s.is_subset(&o, e, g)? as u32, s.is_superset(&o, e, g)? as u32]);
                self.exp.extend([1, 1, 1]);
                o.insert(K::new(extra, 0), e, g)?;
                self.real.extend([s.eql(&o, e, g)? as u32, s.is_subset(&o, e, g)? as u32, s.is_superset(&o, e, g)? as u32]);
                self.exp.extend([0, 1, 0]);
                if let Some(id) = ids.first() {
                    o.remove(&K::new(*id, 0), e, g)?;
                    self.real.extend([s.eql(&o, e, g)? as u32, s.is_subset(&o, e, g)? as u32, s.is_superset(&o, e, g)? as u32]);
                    self.exp.extend([0, 0, 0]);
                    o.remove(&K::new(extra, 0), e, g)?;
                    self.real.extend([s.eql(&o, e, g)? as u32, s.is_subset(&o, e, g)? as u32, s.is_superset(&o, e, g)? as u32]);
                    self.exp.extend([0, 0, 1]);
                }
            }
            _ => return Ok(false),
        }
        Ok(true)
    }

    /// Everything stored is found (with the right content), nothing else is, iteration shows each entry once.
    pub fn check_contents(&mut self) -> Result<(), String> {
        if self.len() != self.m.len() {
            return Err(format!("{} entries, specified {}", self.len(), self.m.len()));
        }
        if self.capacity() < self.len() {
            return Err(format!("capacity {} is less than the number of entries {}", self.capacity(), self.len()));
        }
        let set = self.which == Which::Set;
        let mut all: Vec<u32> = match &self.c {
            Cont::T(t) => t.iter().flat_map(|x| kv((&x.0, &x.1))).collect(),
            Cont::M(m) => m.iter().flat_map(kv).collect(),
            Cont::S(s) => s.iter().flat_map(|k| [k.id as u32, k.tag, 0]).collect(),
        };
        sort3(&mut all);
        self.spec_all();
        if all != self.exp {
            return Err(format!("contents are {all:?}, specified {:?}", self.exp));
        }
        let ids: Vec<u16> = self.m.iter().map(|x| x.id).collect();
        let absent: Vec<u16> = [self.fresh, self.fresh + 1, 620].into_iter().chain(self.gone).filter(|i| !ids.contains(i)).collect();
        let hashes = HashTab(self.profile);
        for (present, id) in ids.iter().map(|i| (true, *i)).chain(absent.iter().map(|i| (false, *i))) {
            let q: K<P> = K::new(id, 0);
            let (e, g) = (&mut self.e, &mut self.g);
            let r: Option<[u32; 3]> = match &self.c {
                Cont::T(t) => t.find(hashes.of(id), |x, e, g| q.eql(&x.0, e, g), e, g).map(|x| x.map(|x| kv((&x.0, &x.1)))),
                Cont::M(m) => m.get_key_value(&q, e, g).map(|x| x.map(kv)),
                Cont::S(s) => s.get(&q, e, g).map(|x| x.map(|k| [k.id as u32, k.tag, 0])),
            }
            .map_err(|f| format!("{f:?}"))?;
            let ok = match r {
                Some(r) => present && self.m.contains(&Ent { id, tag: r[1], val: r[2] }),
                None => !present,
            };
            if !ok {
                return Err(format!("looking up k{id} gives {r:?}, specified {}", if present { "present" } else { "absent" }));
            }
        }
        let _ = set;
        Ok(())
    }

    /// Take over whatever the container holds now.
    pub fn resync(&mut self) {
        self.m = match &self.c {
            Cont::T(t) => t.iter().map(|x| Ent { id: x.0.id, tag: x.0.tag, val: x.1.v }).collect(),
            Cont::M(t) => t.iter().map(|x| Ent { id: x.0.id, tag: x.0.tag, val: x.1.v }).collect(),
            Cont::S(t) => t.iter().map(|x| Ent { id: x.id, tag: x.tag, val: 0 }).collect(),
        };
        self.m.sort_by_key(|x| x.tag);
    }

    pub fn fingerprint(&self) -> u64 {
        let mut f = Fp::default();
        f.add(self.capacity() as u64);
        f.add(self.profile as u64);
        // the order of iteration reveals the layout
        match &self.c {
            Cont::T(t) => t.iter().for_each(|x| f.add(x.0.id as u64)),
            Cont::M(m) => m.keys().for_each(|k| f.add(k.id as u64)),
            Cont::S(s) => s.iter().for_each(|k| f.add(k.id as u64)),
        }
        f.0
    }
}

/// The steps of an iterator, its reported length and its `fold` agree.
fn check_iter<I: ExactSizeIterator + Clone>(mut it: I, f: impl Fn(I::Item) -> [u32; 3], a: Vec<u32>, b: Vec<u32>) -> Vec<u32> {
    let mut c = vec![];
    let mut left = a.len() / 3;
    let mut bad = a != b;
    loop {
        if it.len() != left || it.size_hint() != (left, Some(left)) {
            bad = true;
        }
        if left > 0 && left == a.len() / 6 {
            // a copy made midway continues on its own
            let rest: Vec<u32> = it.clone().flat_map(|x| f(x)).collect();
            if rest[..] != a[a.len() - 3 * left..] {
                bad = true;
            }
        }
        match it.next() {
            Some(x) => c.extend(f(x)),
            None => break,
        }
        left = left.wrapping_sub(1);
    }
    if it.next().is_some() || c != a {
        bad = true;
    }
    let mut r = a;
    sort3(&mut r);
    if bad {
        r.push(0xbad);
    }
    r
}

#[derive(Clone, Copy)]
pub struct HashTab(pub usize);
impl HashTab {
    #[inline]
    pub fn of(&self, id: u16) -> u64 {
        profile_hash(self.0, id as u64)
    }
}

pub const NKINDS: usize = 9;
pub fn kind_name(k: usize) -> &'static str {
    ["inserted", "reserved first", "removed oldest 20", "removed newest 20, shrunk", "churned 40 times", "removed and cloned", "cleared and refilled", "filled to capacity, then removed", "churned to the brink of growing"][k]
}
pub fn build<P: Payload>(w: &mut World<P>, n: usize, kind: usize) -> Result<(), String> {
    let ins = |w: &mut World<P>, c: usize| -> Result<(), String> {
        for _ in 0..c {
            w.apply(Op::Insert(Key::New))?;
        }
        Ok(())
    };
    match kind {
        0 => ins(w, n)?,
        1 => {
            w.c = World::empty(w.which, w.profile, n + 1);
            ins(w, n)?
        }
        2 | 5 => {
            ins(w, n + 20)?;
            for _ in 0..20 {
                w.apply(Op::Remove(Key::First))?;
            }
            if kind == 5 {
                w.apply(Op::Clone)?;
            }
        }
        3 => {
            ins(w, n + 20)?;
            for _ in 0..20 {
                w.apply(Op::Remove(Key::At(w.m.len() as u16 - 1)))?;
            }
            w.apply(Op::ShrinkToFit)?;
        }
        4 => {
            ins(w, n)?;
            if n > 0 {
                for _ in 0..40 {
                    w.apply(Op::Remove(Key::First))?;
                    w.apply(Op::Insert(Key::New))?;
                }
            }
        }
        6 => {
            ins(w, 17)?;
            w.apply(Op::Clear)?;
            ins(w, n)?;
        }
        7 => {
            ins(w, n)?;
            while w.len() < w.capacity() && w.len() < n + 60 {
                ins(w, 1)?;
            }
            while w.len() > n {
                w.apply(Op::Remove(Key::First))?;
            }
        }
        _ => {
            // alternate between nearly full and n, so that removals leave marks behind
            ins(w, n)?;
            for _ in 0..3 {
                let cap = w.capacity();
                while w.len() < cap && w.len() < n + 30 {
                    ins(w, 1)?;
                }
                while w.len() > n {
                    let mid = w.m.len() as u16 / 2;
                    w.apply(Op::Remove(Key::At(mid)))?;
                }
            }
        }
    }
    if w.m.len() != n {
        return Err(format!("start state has {} entries instead of {n}", w.m.len()));
    }
    Ok(())
}

pub fn alphabet(which: Which) -> Vec<Op> {
    use Op::*;
    let mut v = vec![Nop];
    for k in KEYS {
        v.extend([Insert(k), Get(k), Remove(k), EntryInsert(k), EntryOrInsert(k), EntryRemove(k)]);
        match which {
            Which::Table => v.extend([FindMut(k), EntryOrInsertWith(k), EntryModify(k), InsertDup(k), FindEntryRemoveInsert(k), FindEntryTable(k), EntrySym(k), IterHash(k), IterHashMut(k)]),
            Which::Map => v.extend([
                FindMut(k), EntryOrInsertWith(k), EntryModify(k), GetKeyValue(k), GetKeyValueMut(k), Contains(k), TryInsert(k), RemoveEntry(k), EntryOrInsertWithKey(k), EntryOrDefault(k),
                EntryReplace(k, true), EntryReplace(k, false), OccReplace(k, true), OccReplace(k, false), OccInsert(k), OccRemoveEntry(k), VacEntry(k), RefInsert(k), RefOrInsert(k), RefOrInsertWith(k),
                RefOrInsertWithKey(k), RefOrDefault(k), RefModify(k), RefVacEntry(k),
            ]),
            Which::Set => v.extend([Contains(k), GetOrInsert(k), GetOrInsertWith(k), Replace(k), Take(k), VacEntry(k)]),
        }
    }
    for p in 0..5 {
        v.extend([Retain(p), Extract(p, 255), Extract(p, 1), Extract(p, 0)]);
    }
    for t in [0, 1, 3, 255] {
        v.push(Drain(t));
    }
    for n in [0, 1, 4, 14, 15, 40, 100] {
        v.extend([Reserve(n), ShrinkTo(n)]);
    }
    v.extend([Clear, ShrinkToFit, Clone, CloneFrom(0), CloneFrom(1), CloneFrom(2), Rebuild(0), Rebuild(1), Iter, InsertUnchecked]);
    match which {
        Which::Table => v.push(IterMut),
        Which::Map => v.extend([IterMut, Extend, FromIter, EqlCopy, KeysValues, ValuesMut, IntoKeys, IntoValues]),
        Which::Set => v.extend([Extend, FromIter, EqlCopy, GetOrInsertWithOther, FromMap]),
    }
    v
}
pub fn core_alphabet(which: Which) -> Vec<Op> {
    use Op::*;
    let mut v = vec![
        Nop, Insert(Key::New), Insert(Key::Gone), Insert(Key::First), Remove(Key::First), Remove(Key::Mid), Remove(Key::Last), EntryOrInsert(Key::New), EntryRemove(Key::Mid), Retain(1), Extract(2, 1),
        Drain(1), Reserve(1), Reserve(15), ShrinkToFit, ShrinkTo(4), Clone, CloneFrom(1), CloneFrom(2), Clear, Rebuild(0), Iter,
    ];
    match which {
        Which::Table => v.extend([InsertDup(Key::First), FindEntryRemoveInsert(Key::First), EntrySym(Key::New), IterHash(Key::First)]),
        Which::Map => v.extend([OccReplace(Key::First, false), RefInsert(Key::New), TryInsert(Key::Gone), Extend, EntryReplace(Key::Mid, false)]),
        Which::Set => v.extend([Replace(Key::First), GetOrInsertWith(Key::New), Take(Key::Mid), Extend, FromMap]),
    }
    v
}
/// Operations on one key whose errors must leave the container as it was.
pub fn keyed(op: &Op) -> bool {
    !matches!(op, Op::Nop | Op::Extend | Op::FromIter | Op::Rebuild(_) | Op::EqlCopy | Op::CloneFrom(_) | Op::FromMap)
}

pub fn run_sequence<P: Payload>(which: Which, profile: usize, n: usize, kind: usize, ops: &[Op], ctx: &mut Ctx) -> Result<(), String> {
    let mut w: World<P> = World::new(which, profile);
    ctx.trace.clear();
    ctx.note(|| format!("start: {n} entries, {}, hashes: {}", kind_name(kind), profile_name(profile)));
    build(&mut w, n, kind)?;
    for op in ops {
        if w.apply(*op)? {
            let (real, len) = (&w.real, w.m.len());
            ctx.step(|| format!("{op:?} -> {real:?} (len {len})"));
        }
    }
    w.check_contents()?;
    ctx.state(w.fingerprint());
    ctx.execution();
    Ok(())
}
