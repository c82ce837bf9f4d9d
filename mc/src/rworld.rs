//! RubyMap under exploration next to its specification: an ordered list of entries.

use crate::env::*;
use engine::{Ctx, Fp};
use rubymap::map::Entry;
use rubymap::RubyMap;
use std::ops::Bound;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub type Map<P> = RubyMap<K<P>, V<P>, Exec, Glob, Fault, Ident>;

/// One entry of the specification.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Ent {
    pub id: u16,
    pub tag: u32,
    pub val: u32,
    /// `#hash` of the key when it was stored
    pub hash: u64,
}

pub struct World<P: Payload> {
    pub map: Map<P>,
    pub m: Vec<Ent>,
    pub e: Exec,
    pub g: Glob,
    pub next_val: u32,
    pub fresh: u16,
    pub gone: Option<u16>,
    pub real: Vec<u32>,
    pub exp: Vec<u32>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Key {
    First,
    Second,
    Mid,
    Last,
    New,
    Gone,
    At(u16),
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Pos {
    Zero,
    One,
    Mid,
    Last,
    Len,
    Over,
    At(u16),
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ran {
    Full,
    Empty,
    Head,
    Tail,
    OneMid,
    Inner,
    HeadIncl,
    ExclFirst,
    Bad,
    Inverted,
    Of(u16, u16),
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Pred {
    All,
    None,
    Even,
    NotFirst,
    OnlyLast,
    Third,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op {
    Nop,
    // lookups
    Get(Key),
    GetKeyValue(Key),
    GetFull(Key),
    GetIndexOf(Key),
    Contains(Key),
    GetMut(Key),
    GetFullMut(Key),
    GetDisjoint(Key, Key),
    GetIndex(Pos),
    GetIndexMut(Pos),
    IndexUsize(Pos),
    IndexMutUsize(Pos),
    FirstLast,
    FirstMut,
    LastMut,
    DisjointIdx(Pos, Pos),
    // insertion
    Insert(Key),
    InsertFull(Key),
    InsertSorted(Key),
    InsertBefore(Pos, Key),
    ShiftInsert(Pos, Key),
    InsertSym(Key),
    InsertPrehashed(Key),
    InsertPrehashedWith(Key),
    GetPrehashed(Key),
    GetPrehashedWith(Key),
    Extend,
    Append,
    AppendInto,
    // removal
    SwapRemove(Key),
    SwapRemoveEntry(Key),
    SwapRemoveFull(Key),
    RemoveEntry(Key),
    ShiftRemove(Key),
    ShiftRemoveEntry(Key),
    ShiftRemoveFull(Key),
    SwapRemoveIndex(Pos),
    ShiftRemoveIndex(Pos),
    Pop,
    Clear,
    Truncate(Pos),
    Drain(Ran),
    DrainPartial(Ran, u8, u8),
    SplitOffKeepHead(Pos),
    SplitOffKeepTail(Pos),
    Retain(Pred),
    TombRemove(Key),
    TombIndex(Pos),
    TombTwo(Key, Pos),
    TombHeadKeepOne,
    // reordering
    SortKeys,
    SortUnstableKeys,
    SortByValDesc,
    SortUnstableByValDesc,
    SortByClass3,
    SortByCached,
    Reverse,
    MoveIndex(Pos, Pos),
    SortedBy,
    SortedUnstableBy,
    // storage
    Reserve(u16),
    ReserveExact(u16),
    ShrinkToFit,
    ShrinkTo(u16),
    Clone,
    CloneFromOther(u8),
    CloneMutate,
    MapKeys,
    Rebuild,
    // entry handles
    EntryOrInsert(Key),
    EntryOrInsertWith(Key),
    EntryOrInsertWithKey(Key),
    EntryOrDefault(Key),
    EntryAndModifyOrInsert(Key),
    EntryInsertEntry(Key),
    EntryProbe(Key),
    EntryOccInsert(Key),
    EntryOccSwapRemove(Key),
    EntryOccShiftRemove(Key),
    EntryOccSwapRemoveEntry(Key),
    EntryOccShiftRemoveEntry(Key),
    EntryOccRemove(Key),
    EntryOccMove(Key, Pos),
    EntryVacShiftInsert(Pos),
    EntryVacInsertSorted,
    EntryVacInsertEntryThenRemove,
    IdxEntryInsert(Pos),
    IdxEntrySwapRemove(Pos),
    IdxEntryShiftRemove(Pos),
    IdxEntryMove(Pos, Pos),
    FirstEntrySwapRemove,
    LastEntryShiftRemove,
    OccFromIndex(Pos),
    IdxFromOcc(Key),
    /// the hash of the first key changes while it is stored (a mutated key)
    Stale(Key),
}

const PANIC: u32 = 0xdead_0001;
pub const DEAD: u16 = UNIVERSE as u16 - 1;

impl<P: Payload> World<P> {
    pub fn new(profile: usize) -> Self {
        SYM_PROFILE.with(|p| p.set(profile));
        World {
            map: RubyMap::with_hasher(Ident),
            m: vec![],
            e: Exec::new(profile),
            g: Glob::default(),
            next_val: 1,
            fresh: 0,
            gone: None,
            real: vec![],
            exp: vec![],
        }
    }
    pub fn val(&mut self) -> u32 {
        self.next_val += 1;
        self.next_val
    }
    pub fn mk(&mut self, id: u16) -> K<P> {
        let tag = self.e.stored.len() as u32;
        self.e.stored.push(self.e.hash[id as usize]);
        K::new(id, tag)
    }
    pub fn new_id(&mut self) -> u16 {
        let i = self.fresh;
        self.fresh += 1;
        i
    }
    pub fn key(&mut self, k: Key) -> Option<u16> {
        let n = self.m.len();
        match k {
            Key::First => self.m.first().map(|x| x.id),
            Key::Second => (n >= 3).then(|| self.m[1].id),
            Key::Mid => (n >= 4).then(|| self.m[n / 2].id),
            Key::Last => (n >= 2).then(|| self.m[n - 1].id),
            Key::New => Some(self.new_id()),
            Key::Gone => self.gone,
            Key::At(i) => self.m.get(i as usize).map(|x| x.id),
        }
    }
    pub fn pos(&self, p: Pos) -> Option<usize> {
        let n = self.m.len();
        match p {
            Pos::Zero => Some(0),
            Pos::One => (n >= 2).then_some(1),
            Pos::Mid => (n >= 5).then_some(n / 2),
            Pos::Last => (n >= 3).then(|| n - 1),
            Pos::Len => Some(n),
            Pos::Over => Some(n + 1),
            Pos::At(i) => Some(i as usize),
        }
    }
    fn range(&self, r: Ran) -> Option<(Bound<usize>, Bound<usize>, Option<(usize, usize)>)> {
        use Bound::*;
        let n = self.m.len();
        Some(match r {
            Ran::Full => (Unbounded, Unbounded, Some((0, n))),
            Ran::Empty => (Included(n / 2), Excluded(n / 2), Some((n / 2, n / 2))),
            Ran::Head => (Unbounded, Excluded(n / 2), Some((0, n / 2))),
            Ran::Tail => (Included(n / 2), Unbounded, Some((n / 2, n))),
            Ran::OneMid if n >= 1 => (
                Included(n / 2),
                Excluded(n / 2 + 1),
                Some((n / 2, n / 2 + 1)),
            ),
            Ran::Inner if n >= 3 => (Included(1), Excluded(n - 1), Some((1, n - 1))),
            Ran::HeadIncl if n >= 2 => (Included(0), Included(n / 2), Some((0, n / 2 + 1))),
            Ran::ExclFirst if n >= 2 => (Excluded(0), Included(n - 1), Some((1, n))),
            Ran::Of(a, b) => (Included(a as usize), Excluded(b as usize), (a <= b && b as usize <= n).then_some((a as usize, b as usize))),
            Ran::Bad => (Included(0), Excluded(n + 1), None),
            Ran::Inverted if n >= 2 => (Included(n - 1), Excluded(1.min(n - 2)), None),
            _ => return None,
        })
    }
    pub fn find(&self, id: u16) -> Option<usize> {
        let (h, c) = (self.e.hash[id as usize], self.e.class[id as usize]);
        self.m
            .iter()
            .position(|x| x.hash == h && self.e.class[x.id as usize] == c)
    }
    pub fn push_model(&mut self, id: u16, tag: u32, val: u32) {
        let hash = self.e.hash[id as usize];
        self.m.push(Ent { id, tag, val, hash });
    }
    fn rk(&mut self, k: &K<P>) {
        self.real.push(k.id as u32);
        self.real.push(k.tag);
    }
    pub fn sorted(&self) -> bool {
        self.m.windows(2).all(|w| w[0].id < w[1].id)
    }
    fn expk(&mut self, i: usize) {
        self.exp.push(self.m[i].id as u32);
        self.exp.push(self.m[i].tag);
    }

    fn guarded(&mut self, panics: bool, f: impl FnOnce(&mut Self) -> Result<(), Fault>) -> Result<(), Fault> {
        if !panics {
            return f(self);
        }
        match catch_unwind(AssertUnwindSafe(|| f(self))) {
            Ok(r) => r,
            Err(_) => {
                self.real.clear();
                self.real.push(PANIC);
                Ok(())
            }
        }
    }

    /// Run one operation on the map and on the specification and compare what they return.
    /// `Ok(false)`: the operation does not apply in this state.
    pub fn apply(&mut self, op: Op) -> Result<bool, String> {
        self.real.clear();
        self.exp.clear();
        let (h0, c0, n0) = (self.e.hash_calls, self.e.calls, self.m.len());
        match self.step(op) {
            Ok(false) => Ok(false),
            Ok(true) => {
                if self.e.check_protocol && self.exp != [PANIC] {
                    let (h, c) = (self.e.hash_calls - h0, self.e.calls - c0);
                    match callbacks(op) {
                        Calls::None if c > 0 => {
                            return Err(format!("{op:?} called back into user code {c} times"))
                        }
                        Calls::OneHash if h > 1 || (h == 0 && n0 > 0 && !matches!(op, Op::InsertSorted(_))) => {
                            return Err(format!("{op:?} asked #hash {h} times ({n0} entries)"))
                        }
                        _ => {}
                    }
                }
                if self.real != self.exp {
                    return Err(format!(
                        "{op:?} returned {:?}, specified {:?}",
                        self.real, self.exp
                    ));
                }
                if let Some(b) = self.e.bad_protocol.take() {
                    return Err(format!("{op:?}: {b}"));
                }
                Ok(true)
            }
            Err(f) => Err(format!("{op:?} reported {f:?} although no callback failed")),
        }
    }

    /// Real effect and specified effect. An `Err` is an error the map reported; the specification has
    /// then not been changed.
    pub fn step(&mut self, op: Op) -> Result<bool, Fault> {
        macro_rules! key {
            ($k:expr) => {
                match self.key($k) {
                    Some(i) => i,
                    None => return Ok(false),
                }
            };
        }
        macro_rules! pos {
            ($p:expr) => {
                match self.pos($p) {
                    Some(i) => i,
                    None => return Ok(false),
                }
            };
        }
        let n = self.m.len();
        match op {
            Op::Nop => {}
            Op::Stale(k) => {
                let id = key!(k);
                // stays in the same bucket with the same tag, only middle bits change
                self.e.hash[id as usize] ^= 1 << 40;
            }
            Op::Get(k) => {
                let id = key!(k);
                let key = self.mk(id);
                let r = self.map.get(&key, &mut self.e, &mut self.g)?.map(|v| v.v);
                push_opt(&mut self.real, r);
                let x = self.find(id).map(|i| self.m[i].val);
                push_opt(&mut self.exp, x);
            }
            Op::GetPrehashed(k) => {
                let id = key!(k);
                let key = self.mk(id);
                let h = self.e.hash[id as usize] as usize;
                let r = self.map.get_prehashed(h, &key, &mut self.e, &mut self.g)?.map(|v| v.v);
                push_opt(&mut self.real, r);
                let x = self.find(id).map(|i| self.m[i].val);
                push_opt(&mut self.exp, x);
            }
            Op::GetPrehashedWith(k) => {
                let id = key!(k);
                let h = self.e.hash[id as usize];
                let tags = &self.e.stored;
                let class = &self.e.class;
                let mut bad = false;
                let mut e2 = Exec { stored: vec![], hash: vec![], class: vec![], ..Exec::new_blank() };
                let r = self
                    .map
                    .get_prehashed_with(
                        h as usize,
                        |k| {
                            user_code();
                            if tags[k.tag as usize] != h {
                                bad = true;
                            }
                            class[k.id as usize] == class[id as usize]
                        },
                        &mut e2,
                        &mut self.g,
                    )?
                    .map(|v| v.v);
                if bad && self.e.check_protocol {
                    self.e.bad_protocol =
                        Some("the equality predicate was called on a key with a different hash".into());
                }
                push_opt(&mut self.real, r);
                let x = self.find(id).map(|i| self.m[i].val);
                push_opt(&mut self.exp, x);
            }
            Op::GetKeyValue(k) => {
                let id = key!(k);
                let key = self.mk(id);
                let r = self
                    .map
                    .get_key_value(&key, &mut self.e, &mut self.g)?
                    .map(|(k, v)| (k.id as u32, k.tag, v.v));
                if let Some((a, b, c)) = r {
                    self.real.extend([a, b, c]);
                }
                if let Some(i) = self.find(id) {
                    self.expk(i);
                    let v = self.m[i].val;
                    self.exp.push(v);
                }
            }
            Op::GetFull(k) => {
                let id = key!(k);
                let key = self.mk(id);
                let r = self
                    .map
                    .get_full(&key, &mut self.e, &mut self.g)?
                    .map(|(i, k, v)| [i as u32, k.id as u32, k.tag, v.v]);
                if let Some(r) = r {
                    self.real.extend(r);
                }
                if let Some(i) = self.find(id) {
                    self.exp.push(i as u32);
                    self.expk(i);
                    let v = self.m[i].val;
                    self.exp.push(v);
                }
            }
            Op::GetIndexOf(k) => {
                let id = key!(k);
                let key = self.mk(id);
                let r = self.map.get_index_of(&key, &mut self.e, &mut self.g)?;
                push_opt(&mut self.real, r.map(|x| x as u32));
                let x = self.find(id).map(|x| x as u32);
                push_opt(&mut self.exp, x);
            }
            Op::Contains(k) => {
                let id = key!(k);
                let key = self.mk(id);
                let r = self.map.contains_key(&key, &mut self.e, &mut self.g)?;
                self.real.push(r as u32);
                let x = self.find(id).is_some() as u32;
                self.exp.push(x);
            }
            Op::GetMut(k) => {
                let id = key!(k);
                let key = self.mk(id);
                let nv = self.val();
                if let Some(v) = self.map.get_mut(&key, &mut self.e, &mut self.g)? {
                    self.real.push(v.v);
                    *v = V::new(nv);
                }
                if let Some(i) = self.find(id) {
                    self.exp.push(self.m[i].val);
                    self.m[i].val = nv;
                }
            }
            Op::GetFullMut(k) => {
                let id = key!(k);
                let key = self.mk(id);
                let nv = self.val();
                if let Some((i, k, v)) = self.map.get_full_mut(&key, &mut self.e, &mut self.g)? {
                    self.real.extend([i as u32, k.id as u32, k.tag, v.v]);
                    v.v = nv;
                }
                if let Some(i) = self.find(id) {
                    self.exp.push(i as u32);
                    self.expk(i);
                    self.exp.push(self.m[i].val);
                    self.m[i].val = nv;
                }
            }
            Op::GetDisjoint(a, b) => {
                let ia = key!(a);
                let ib = key!(b);
                let (ka, kb) = (self.mk(ia), self.mk(ib));
                let (fa, fb) = (self.find(ia), self.find(ib));
                let panics = fa.is_some() && fa == fb;
                let nv = self.val();
                self.guarded(panics, |w| {
                    let r = w.map.get_disjoint_mut([&ka, &kb], &mut w.e, &mut w.g)?;
                    for v in r {
                        match v {
                            Some(v) => {
                                w.real.push(v.v);
                                v.v = nv;
                            }
                            None => w.real.push(u32::MAX),
                        }
                    }
                    Ok(())
                })?;
                if panics {
                    self.exp.push(PANIC);
                } else {
                    for f in [fa, fb] {
                        match f {
                            Some(i) => {
                                self.exp.push(self.m[i].val);
                                self.m[i].val = nv;
                            }
                            None => self.exp.push(u32::MAX),
                        }
                    }
                }
            }
            Op::GetIndex(p) => {
                let i = pos!(p);
                if let Some((k, v)) = self.map.get_index(i) {
                    self.real.extend([k.id as u32, k.tag, v.v]);
                }
                if i < n {
                    self.expk(i);
                    self.exp.push(self.m[i].val);
                }
            }
            Op::GetIndexMut(p) => {
                let i = pos!(p);
                let nv = self.val();
                if let Some((k, v)) = self.map.get_index_mut(i) {
                    self.real.extend([k.id as u32, k.tag, v.v]);
                    v.v = nv;
                }
                if i < n {
                    self.expk(i);
                    self.exp.push(self.m[i].val);
                    self.m[i].val = nv;
                }
            }
            Op::IndexUsize(p) => {
                let i = pos!(p);
                self.guarded(i >= n, |w| {
                    let v = w.map[i].v;
                    w.real.push(v);
                    Ok(())
                })?;
                self.exp.push(if i < n { self.m[i].val } else { PANIC });
            }
            Op::IndexMutUsize(p) => {
                let i = pos!(p);
                let nv = self.val();
                self.guarded(i >= n, |w| {
                    w.map[i] = V::new(nv);
                    Ok(())
                })?;
                if i < n {
                    self.m[i].val = nv;
                } else {
                    self.exp.push(PANIC);
                }
            }
            Op::FirstLast => {
                for r in [self.map.first(), self.map.last()] {
                    if let Some((k, v)) = r {
                        self.real.extend([k.id as u32, k.tag, v.v]);
                    }
                }
                if n > 0 {
                    for i in [0, n - 1] {
                        self.expk(i);
                        self.exp.push(self.m[i].val);
                    }
                }
            }
            Op::FirstMut => {
                let nv = self.val();
                if let Some((k, v)) = self.map.first_mut() {
                    self.real.extend([k.id as u32, v.v]);
                    v.v = nv;
                }
                if n > 0 {
                    self.exp.extend([self.m[0].id as u32, self.m[0].val]);
                    self.m[0].val = nv;
                }
            }
            Op::LastMut => {
                let nv = self.val();
                if let Some((k, v)) = self.map.last_mut() {
                    self.real.extend([k.id as u32, v.v]);
                    v.v = nv;
                }
                if n > 0 {
                    self.exp.extend([self.m[n - 1].id as u32, self.m[n - 1].val]);
                    self.m[n - 1].val = nv;
                }
            }
            Op::DisjointIdx(a, b) => {
                let (a, b) = (pos!(a), pos!(b));
                let nv = self.val();
                match self.map.get_disjoint_indices_mut([a, b]) {
                    Ok(r) => {
                        for (k, v) in r {
                            self.real.extend([k.id as u32, v.v]);
                            v.v = nv;
                        }
                    }
                    Err(rubymap::GetDisjointMutError::IndexOutOfBounds) => self.real.push(901),
                    Err(rubymap::GetDisjointMutError::OverlappingIndices) => self.real.push(902),
                }
                if a >= n || b >= n {
                    self.exp.push(901);
                } else if a == b {
                    self.exp.push(902);
                } else {
                    for i in [a, b] {
                        self.exp.extend([self.m[i].id as u32, self.m[i].val]);
                        self.m[i].val = nv;
                    }
                }
            }
            Op::Insert(k) | Op::InsertFull(k) | Op::InsertSym(k) | Op::InsertPrehashed(k) | Op::InsertPrehashedWith(k) => {
                let id = key!(k);
                let key = self.mk(id);
                let tag = key.tag;
                let nv = self.val();
                let h = self.e.hash[id as usize];
                let v = V::new(nv);
                let (ri, rv) = match op {
                    Op::Insert(_) => (None, self.map.insert(key, v, &mut self.e, &mut self.g)?),
                    Op::InsertFull(_) => {
                        let (i, o) = self.map.insert_full(key, v, &mut self.e, &mut self.g)?;
                        (Some(i), o)
                    }
                    Op::InsertSym(_) => {
                        NEXT_TAG.with(|t| t.set(tag));
                        if id % 2 == 0 {
                            (None, self.map.insert_sym(Sym(id), v))
                        } else {
                            let (i, o) = self.map.insert_sym_full(Sym(id), v);
                            (Some(i), o)
                        }
                    }
                    Op::InsertPrehashed(_) => (None, self.map.insert_prehashed(h as usize, key, v)),
                    _ => {
                        let tags = &self.e.stored;
                        let class = &self.e.class;
                        let mut bad = false;
                        let r = self.map.insert_prehashed_with(h as usize, key, v, |k| {
                            user_code();
                            if tags[k.tag as usize] != h {
                                bad = true;
                            }
                            class[k.id as usize] == class[id as usize]
                        });
                        if bad && self.e.check_protocol {
                            self.e.bad_protocol = Some(
                                "the equality predicate was called on a key with a different hash".into(),
                            );
                        }
                        (None, r)
                    }
                };
                push_opt(&mut self.real, rv.map(|v| v.v));
                let f = self.find(id);
                push_opt(&mut self.exp, f.map(|i| self.m[i].val));
                if let Some(i) = ri {
                    self.real.push(i as u32);
                    self.exp.push(f.unwrap_or(n) as u32);
                }
                match f {
                    Some(i) => self.m[i].val = nv,
                    None => self.push_model(id, tag, nv),
                }
            }
            Op::InsertSorted(k) => {
                if !self.sorted() {
                    return Ok(false);
                }
                let id = key!(k);
                let key = self.mk(id);
                let tag = key.tag;
                let nv = self.val();
                let (i, o) = self.map.insert_sorted(key, V::new(nv), &mut self.e, &mut self.g)?;
                self.real.push(i as u32);
                push_opt(&mut self.real, o.map(|v| v.v));
                let at = self.m.partition_point(|x| x.id < id);
                self.exp.push(at as u32);
                if let Some(f) = self.find(id) {
                    self.exp.extend([1, self.m[f].val]);
                    self.m[f].val = nv;
                } else {
                    self.exp.push(0);
                    let hash = self.e.hash[id as usize];
                    self.m.insert(at, Ent { id, tag, val: nv, hash });
                }
            }
            Op::InsertBefore(p, k) => {
                let i = pos!(p);
                let id = key!(k);
                let key = self.mk(id);
                let tag = key.tag;
                let nv = self.val();
                let v = V::new(nv);
                self.guarded(i > n, |w| {
                    let (at, o) = w.map.insert_before(i, key, v, &mut w.e, &mut w.g)?;
                    w.real.push(at as u32);
                    push_opt(&mut w.real, o.map(|v| v.v));
                    Ok(())
                })?;
                if i > n {
                    self.exp.push(PANIC);
                } else if let Some(f) = self.find(id) {
                    let at = if f < i { i - 1 } else { i };
                    self.exp.extend([at as u32, 1, self.m[f].val]);
                    let mut x = self.m.remove(f);
                    x.val = nv;
                    self.m.insert(at, x);
                } else {
                    self.exp.extend([i as u32, 0]);
                    let hash = self.e.hash[id as usize];
                    self.m.insert(i, Ent { id, tag, val: nv, hash });
                }
            }
            Op::ShiftInsert(p, k) => {
                let i = pos!(p);
                let id = key!(k);
                let key = self.mk(id);
                let tag = key.tag;
                let nv = self.val();
                let v = V::new(nv);
                let f = self.find(id);
                let panics = if f.is_some() { i >= n } else { i > n };
                self.guarded(panics, |w| {
                    let o = w.map.shift_insert(i, key, v, &mut w.e, &mut w.g)?;
                    push_opt(&mut w.real, o.map(|v| v.v));
                    Ok(())
                })?;
                if panics {
                    self.exp.push(PANIC);
                } else if let Some(f) = f {
                    self.exp.extend([1, self.m[f].val]);
                    let mut x = self.m.remove(f);
                    x.val = nv;
                    self.m.insert(i, x);
                } else {
                    self.exp.push(0);
                    let hash = self.e.hash[id as usize];
                    self.m.insert(i, Ent { id, tag, val: nv, hash });
                }
            }
            Op::Extend => {
                let mut ids = vec![self.new_id(), self.new_id()];
                if n > 0 {
                    ids.insert(1, self.m[0].id);
                    ids.push(self.m[n - 1].id);
                }
                let items: Vec<(K<P>, V<P>)> = ids
                    .iter()
                    .map(|id| {
                        let v = self.val();
                        (self.mk(*id), V::new(v))
                    })
                    .collect();
                let spec: Vec<(u16, u32, u32)> = items.iter().map(|(k, v)| (k.id, k.tag, v.v)).collect();
                self.map.extend(items, &mut self.e, &mut self.g)?;
                for (id, tag, v) in spec {
                    match self.find(id) {
                        Some(i) => self.m[i].val = v,
                        None => self.push_model(id, tag, v),
                    }
                }
            }
            Op::Append | Op::AppendInto => {
                let mut other: Map<P> = RubyMap::with_hasher(Ident);
                let mut spec: Vec<Ent> = vec![];
                for j in 0..10u16 {
                    let id = if j % 3 == 2 && (j as usize) < n {
                        self.m[j as usize].id
                    } else {
                        self.new_id()
                    };
                    let k = self.mk(id);
                    let tag = k.tag;
                    let v = self.val();
                    other.insert(k, V::new(v), &mut self.e, &mut self.g)?;
                    let hash = self.e.hash[id as usize];
                    let c = self.e.class[id as usize];
                    match spec
                        .iter()
                        .position(|x| x.hash == hash && self.e.class[x.id as usize] == c)
                    {
                        Some(i) => spec[i].val = v,
                        None => spec.push(Ent { id, tag, val: v, hash }),
                    }
                }
                for x in if op == Op::Append { &spec } else { &self.m } {
                    self.e.stored[x.tag as usize] = self.e.hash[x.id as usize];
                }
                let (src, dst) = if op == Op::Append {
                    self.map.append(&mut other, &mut self.e, &mut self.g)?;
                    self.real.push(other.len() as u32);
                    (spec, std::mem::take(&mut self.m))
                } else {
                    let r = other.append(&mut self.map, &mut self.e, &mut self.g);
                    r?;
                    self.real.push(self.map.len() as u32);
                    std::mem::swap(&mut self.map, &mut other);
                    (std::mem::take(&mut self.m), spec)
                };
                self.exp.push(0);
                self.m = dst;
                for x in src {
                    // the receiving map asks #hash again
                    let (h, c) = (self.e.hash[x.id as usize], self.e.class[x.id as usize]);
                    match self
                        .m
                        .iter()
                        .position(|y| y.hash == h && self.e.class[y.id as usize] == c)
                    {
                        Some(i) => self.m[i].val = x.val,
                        None => self.push_model(x.id, x.tag, x.val),
                    }
                }
                if other.is_empty() {
                    // the emptied map stays usable
                    let id = self.new_id();
                    let k = self.mk(id);
                    other.insert(k, V::new(7), &mut self.e, &mut self.g)?;
                    let k = self.mk(id);
                    let r = other.get(&k, &mut self.e, &mut self.g)?.map(|v| v.v);
                    self.real.push(r.unwrap_or(u32::MAX));
                    self.exp.push(7);
                }
            }
            #[allow(deprecated)]
            Op::SwapRemove(k)
            | Op::SwapRemoveEntry(k)
            | Op::SwapRemoveFull(k)
            | Op::RemoveEntry(k)
            | Op::ShiftRemove(k)
            | Op::ShiftRemoveEntry(k)
            | Op::ShiftRemoveFull(k) => {
                let id = key!(k);
                let key = self.mk(id);
                let f = self.find(id);
                let (e, g) = (&mut self.e, &mut self.g);
                match op {
                    Op::SwapRemove(_) => {
                        push_opt(&mut self.real, self.map.swap_remove(&key, e, g)?.map(|v| v.v))
                    }
                    Op::ShiftRemove(_) => {
                        push_opt(&mut self.real, self.map.shift_remove(&key, e, g)?.map(|v| v.v))
                    }
                    Op::SwapRemoveEntry(_) | Op::RemoveEntry(_) | Op::ShiftRemoveEntry(_) => {
                        let r = match op {
                            Op::SwapRemoveEntry(_) => self.map.swap_remove_entry(&key, e, g)?,
                            Op::RemoveEntry(_) => self.map.remove_entry(&key, e, g)?,
                            _ => self.map.shift_remove_entry(&key, e, g)?,
                        };
                        if let Some((k, v)) = r {
                            self.real.extend([1, v.v, k.id as u32, k.tag]);
                        } else {
                            self.real.push(0);
                        }
                    }
                    _ => {
                        let r = match op {
                            Op::SwapRemoveFull(_) => self.map.swap_remove_full(&key, e, g)?,
                            _ => self.map.shift_remove_full(&key, e, g)?,
                        };
                        if let Some((i, k, v)) = r {
                            self.real.extend([1, v.v, k.id as u32, k.tag, i as u32]);
                        } else {
                            self.real.push(0);
                        }
                    }
                }
                if let Some(i) = f {
                    self.exp.extend([1, self.m[i].val]);
                    if !matches!(op, Op::SwapRemove(_) | Op::ShiftRemove(_)) {
                        self.expk(i);
                    }
                    if matches!(op, Op::SwapRemoveFull(_) | Op::ShiftRemoveFull(_)) {
                        self.exp.push(i as u32);
                    }
                    self.gone = Some(id);
                    if matches!(op, Op::ShiftRemove(_) | Op::ShiftRemoveEntry(_) | Op::ShiftRemoveFull(_)) {
                        self.m.remove(i);
                    } else {
                        self.m.swap_remove(i);
                    }
                } else {
                    self.exp.push(0);
                }
            }
            Op::SwapRemoveIndex(p) | Op::ShiftRemoveIndex(p) => {
                let i = pos!(p);
                let r = if matches!(op, Op::SwapRemoveIndex(_)) {
                    self.map.swap_remove_index(i, &mut self.e, &mut self.g)?
                } else {
                    self.map.shift_remove_index(i, &mut self.e, &mut self.g)?
                };
                if let Some((k, v)) = r {
                    self.rk(&k);
                    self.real.push(v.v);
                }
                if i < n {
                    self.expk(i);
                    self.exp.push(self.m[i].val);
                    self.gone = Some(self.m[i].id);
                    if matches!(op, Op::SwapRemoveIndex(_)) {
                        self.m.swap_remove(i);
                    } else {
                        self.m.remove(i);
                    }
                }
            }
            Op::Pop => {
                if let Some((k, v)) = self.map.pop(&mut self.e, &mut self.g)? {
                    self.rk(&k);
                    self.real.push(v.v);
                }
                if n > 0 {
                    self.expk(n - 1);
                    self.exp.push(self.m[n - 1].val);
                    self.gone = Some(self.m[n - 1].id);
                    self.m.pop();
                }
            }
            Op::Clear => {
                self.map.clear();
                if n > 0 {
                    self.gone = Some(self.m[0].id);
                }
                self.m.clear();
            }
            Op::Truncate(p) => {
                let i = pos!(p);
                self.map.truncate(i, &mut self.e, &mut self.g)?;
                if i < n {
                    self.gone = Some(self.m[i].id);
                }
                self.m.truncate(i);
            }
            Op::Drain(_) | Op::DrainPartial(..) => {
                let (r, front, back) = match op {
                    Op::DrainPartial(r, f, b) => (r, f as usize, b as usize),
                    Op::Drain(r) => (r, usize::MAX, 0),
                    _ => unreachable!(),
                };
                let (lo, hi, spec) = match self.range(r) {
                    Some(x) => x,
                    None => return Ok(false),
                };
                self.guarded(spec.is_none(), |w| {
                    let mut d = w.map.drain((lo, hi), &mut w.e, &mut w.g)?;
                    w.real.push(d.len() as u32);
                    let mut cnt = 0;
                    for _ in 0..back {
                        if let Some((k, v)) = d.next_back() {
                            w.real.extend([k.id as u32, k.tag, v.v]);
                        }
                    }
                    while cnt < front {
                        match d.next() {
                            Some((k, v)) => w.real.extend([k.id as u32, k.tag, v.v]),
                            None => break,
                        }
                        cnt += 1;
                    }
                    w.real.push(d.len() as u32);
                    drop(d);
                    Ok(())
                })?;
                match spec {
                    None => self.exp.push(PANIC),
                    Some((a, b)) => {
                        let mut dr: std::collections::VecDeque<Ent> = self.m.drain(a..b).collect();
                        if let Some(x) = dr.front() {
                            self.gone = Some(x.id);
                        }
                        self.exp.push(dr.len() as u32);
                        for _ in 0..back {
                            if let Some(x) = dr.pop_back() {
                                self.exp.extend([x.id as u32, x.tag, x.val]);
                            }
                        }
                        let mut cnt = 0;
                        while cnt < front {
                            match dr.pop_front() {
                                Some(x) => self.exp.extend([x.id as u32, x.tag, x.val]),
                                None => break,
                            }
                            cnt += 1;
                        }
                        self.exp.push(dr.len() as u32);
                    }
                }
            }
            Op::SplitOffKeepHead(p) | Op::SplitOffKeepTail(p) => {
                let i = pos!(p);
                let keep_head = matches!(op, Op::SplitOffKeepHead(_));
                let mut other = None;
                self.guarded(i > n, |w| {
                    other = Some(w.map.split_off(i, &mut w.e, &mut w.g)?);
                    Ok(())
                })?;
                if i > n {
                    self.exp.push(PANIC);
                } else {
                    let mut other = other.unwrap();
                    let mut tail = self.m.split_off(i);
                    if !keep_head {
                        std::mem::swap(&mut self.map, &mut other);
                        std::mem::swap(&mut self.m, &mut tail);
                    }
                    // the other half is a complete map of its own
                    let mut w2: World<P> = World {
                        map: other,
                        m: tail,
                        e: std::mem::replace(&mut self.e, Exec::new_blank()),
                        g: Glob::default(),
                        next_val: 900_000,
                        fresh: self.fresh,
                        gone: None,
                        real: vec![],
                        exp: vec![],
                    };
                    let ok = w2.check_contents();
                    if ok.is_ok() {
                        if let Some(x) = w2.m.first() {
                            self.gone = Some(x.id);
                        }
                    } else {
                        w2.e.bad_protocol = Some(format!("split half: {}", ok.unwrap_err()));
                    }
                    self.e = std::mem::replace(&mut w2.e, Exec::new_blank());
                }
            }
            Op::Retain(pr) => {
                let mut seen = vec![];
                let mut idx = 0usize;
                self.map.retain(|k, v| {
                    user_code();
                    seen.push(k.id as u32);
                    let keep = pred(pr, idx, n, k.id);
                    idx += 1;
                    if keep {
                        v.v += 100_000;
                    }
                    keep
                });
                self.real.append(&mut seen);
                let old = std::mem::take(&mut self.m);
                for (i, mut x) in old.into_iter().enumerate() {
                    self.exp.push(x.id as u32);
                    if pred(pr, i, n, x.id) {
                        x.val += 100_000;
                        self.m.push(x);
                    } else {
                        self.gone = Some(x.id);
                    }
                }
            }
            Op::TombRemove(_) | Op::TombIndex(_) | Op::TombTwo(..) | Op::TombHeadKeepOne => {
                return self.tomb(op);
            }
            Op::SortKeys => {
                self.map.sort_keys();
                self.m.sort_by_key(|x| x.id);
            }
            Op::SortUnstableKeys => {
                self.map.sort_unstable_keys();
                self.m.sort_by_key(|x| x.id);
            }
            Op::SortByValDesc => {
                self.map.sort_by(|_, a, _, b| {
                    user_code();
                    b.v.cmp(&a.v)
                });
                self.m.sort_by(|a, b| b.val.cmp(&a.val));
            }
            Op::SortUnstableByValDesc => {
                self.map.sort_unstable_by(|k1, a, k2, b| {
                    user_code();
                    (b.v, k2.id).cmp(&(a.v, k1.id))
                });
                self.m.sort_by(|a, b| (b.val, b.id).cmp(&(a.val, a.id)));
            }
            Op::SortByClass3 => {
                self.map.sort_by(|a, _, b, _| {
                    user_code();
                    (a.id % 3).cmp(&(b.id % 3))
                });
                self.m.sort_by(|a, b| (a.id % 3).cmp(&(b.id % 3)));
            }
            Op::SortByCached => {
                self.map.sort_by_cached_key(|k, _| {
                    user_code();
                    5 - (k.id % 5)
                });
                self.m.sort_by_key(|x| 5 - (x.id % 5));
            }
            Op::Reverse => {
                self.map.reverse();
                self.m.reverse();
            }
            Op::MoveIndex(a, b) => {
                let (a, b) = (pos!(a), pos!(b));
                let panics = a >= n || b >= n;
                self.guarded(panics, |w| w.map.move_index(a, b, &mut w.e, &mut w.g))?;
                if panics {
                    self.exp.push(PANIC);
                } else {
                    let x = self.m.remove(a);
                    self.m.insert(b, x);
                }
            }
            Op::SortedBy | Op::SortedUnstableBy => {
                let c = self.map.clone();
                let f = |k1: &K<P>, v1: &V<P>, k2: &K<P>, v2: &V<P>| (v2.v, k2.id).cmp(&(v1.v, k1.id));
                let it = if op == Op::SortedBy {
                    c.sorted_by(f)
                } else {
                    c.sorted_unstable_by(f)
                };
                for (k, v) in it {
                    self.real.extend([k.id as u32, k.tag, v.v]);
                }
                let mut s = self.m.clone();
                s.sort_by(|a, b| (b.val, b.id).cmp(&(a.val, a.id)));
                for x in s {
                    self.exp.extend([x.id as u32, x.tag, x.val]);
                }
            }
            Op::Reserve(x) | Op::ReserveExact(x) => {
                if matches!(op, Op::Reserve(_)) {
                    self.map.reserve(x as usize);
                } else {
                    self.map.reserve_exact(x as usize);
                }
                self.real.push((self.map.capacity() >= n + x as usize) as u32);
                self.exp.push(1);
            }
            Op::ShrinkToFit => self.map.shrink_to_fit(),
            Op::ShrinkTo(x) => {
                let before = self.map.capacity();
                self.map.shrink_to(x as usize);
                let c = self.map.capacity();
                self.real.push((c >= n.max(before.min(x as usize))) as u32);
                self.exp.push(1);
            }
            Op::Clone => {
                self.map = self.map.clone();
            }
            Op::CloneFromOther(kind) => {
                let mut other: Map<P> = match kind {
                    0 => RubyMap::with_hasher(Ident),
                    1 => RubyMap::with_capacity_and_hasher(3, Ident),
                    _ => RubyMap::with_capacity_and_hasher(40, Ident),
                };
                for _ in 0..(kind as u16 * 6) {
                    let id = self.new_id();
                    let k = self.mk(id);
                    other.insert(k, V::new(3), &mut self.e, &mut self.g)?;
                }
                other.clone_from(&self.map);
                self.map = other;
            }
            Op::CloneMutate => {
                let mut c = self.map.clone();
                for _ in 0..3 {
                    let id = self.new_id();
                    let k = self.mk(id);
                    c.insert(k, V::new(3), &mut self.e, &mut self.g)?;
                }
                c.reverse();
                c.swap_remove_index(0, &mut self.e, &mut self.g)?;
                c.shift_remove_index(0, &mut self.e, &mut self.g)?;
                for (_, v) in c.iter_mut() {
                    v.v = 77;
                }
                let len = c.len();
                self.real.push(len as u32);
                self.exp.push(n as u32 + 1);
                c.clear();
            }
            Op::MapKeys => {
                let old = std::mem::replace(&mut self.map, RubyMap::with_hasher(Ident));
                let mut seen = vec![];
                self.map = old.map_keys(|k| {
                    user_code();
                    seen.push(k.id as u32);
                    k
                });
                self.real.append(&mut seen);
                for x in &self.m {
                    self.exp.push(x.id as u32);
                }
            }
            Op::Rebuild => {
                for x in &self.m {
                    self.e.stored[x.tag as usize] = self.e.hash[x.id as usize];
                }
                let old = std::mem::replace(&mut self.map, RubyMap::with_hasher(Ident));
                self.map = RubyMap::from_iter(old, &mut self.e, &mut self.g)?;
                let old = std::mem::take(&mut self.m);
                for x in old {
                    match self.find(x.id) {
                        Some(i) => self.m[i].val = x.val,
                        None => self.push_model(x.id, x.tag, x.val),
                    }
                }
            }
            Op::EntryOrInsert(k)
            | Op::EntryOrInsertWith(k)
            | Op::EntryOrInsertWithKey(k)
            | Op::EntryOrDefault(k)
            | Op::EntryAndModifyOrInsert(k) => {
                let id = key!(k);
                let key = self.mk(id);
                let tag = key.tag;
                let nv = self.val();
                let nv2 = self.val();
                let f = self.find(id);
                let mut called = 0;
                {
                    let ent = self.map.entry(key, &mut self.e, &mut self.g)?;
                    self.real.push(ent.index() as u32);
                    self.real.push(ent.key().id as u32);
                    self.real.push(ent.key().tag);
                    let v = match op {
                        Op::EntryOrInsert(_) => ent.or_insert(V::new(nv)),
                        Op::EntryOrInsertWith(_) => ent.or_insert_with(|| {
                            user_code();
                            called += 1;
                            V::new(nv)
                        }),
                        Op::EntryOrInsertWithKey(_) => ent.or_insert_with_key(|k| {
                            user_code();
                            called += k.id as u32 + 1;
                            V::new(nv)
                        }),
                        Op::EntryOrDefault(_) => ent.or_default(),
                        _ => ent
                            .and_modify(|v| {
                                user_code();
                                called += 10;
                                v.v += 500;
                            })
                            .or_insert(V::new(nv)),
                    };
                    self.real.push(v.v);
                    v.v = nv2;
                }
                self.real.push(called);
                self.exp.push(f.unwrap_or(n) as u32);
                match f {
                    Some(i) => {
                        self.expk(i);
                        let d = matches!(op, Op::EntryAndModifyOrInsert(_)) as u32;
                        self.exp.push(self.m[i].val + d * 500);
                        self.exp.push(d * 10);
                        self.m[i].val = nv2;
                    }
                    None => {
                        self.exp.extend([id as u32, tag]);
                        self.exp.push(if matches!(op, Op::EntryOrDefault(_)) { 4_000_000 } else { nv });
                        self.exp.push(match op {
                            Op::EntryOrInsertWith(_) => 1,
                            Op::EntryOrInsertWithKey(_) => id as u32 + 1,
                            _ => 0,
                        });
                        self.push_model(id, tag, nv2);
                    }
                }
            }
            Op::EntryInsertEntry(k) => {
                let id = key!(k);
                let key = self.mk(id);
                let tag = key.tag;
                let nv = self.val();
                let f = self.find(id);
                {
                    let ent = self.map.entry(key, &mut self.e, &mut self.g)?;
                    let o = ent.insert_entry(V::new(nv));
                    self.real.extend([o.index() as u32, o.key().id as u32, o.key().tag, o.get().v]);
                }
                match f {
                    Some(i) => {
                        self.m[i].val = nv;
                        self.exp.push(i as u32);
                        self.expk(i);
                    }
                    None => {
                        self.push_model(id, tag, nv);
                        self.exp.push(n as u32);
                        self.expk(n);
                    }
                }
                self.exp.push(nv);
            }
            Op::EntryProbe(k) => {
                let id = key!(k);
                let key = self.mk(id);
                let tag = key.tag;
                let f = self.find(id);
                match self.map.entry(key, &mut self.e, &mut self.g)? {
                    Entry::Occupied(o) => {
                        self.real.extend([1, o.index() as u32, o.key().id as u32, o.key().tag, o.get().v])
                    }
                    Entry::Vacant(v) => {
                        self.real.extend([0, v.index() as u32, v.key().id as u32, v.key().tag]);
                        let k = v.into_key();
                        self.real.push(k.tag);
                    }
                }
                match f {
                    Some(i) => {
                        self.exp.extend([1, i as u32]);
                        self.expk(i);
                        self.exp.push(self.m[i].val);
                    }
                    None => self.exp.extend([0, n as u32, id as u32, tag, tag]),
                }
            }
            #[allow(deprecated)]
            Op::EntryOccInsert(k)
            | Op::EntryOccSwapRemove(k)
            | Op::EntryOccShiftRemove(k)
            | Op::EntryOccSwapRemoveEntry(k)
            | Op::EntryOccShiftRemoveEntry(k)
            | Op::EntryOccRemove(k) => {
                let id = key!(k);
                let f = self.find(id);
                let key = self.mk(id);
                let nv = self.val();
                match self.map.entry(key, &mut self.e, &mut self.g)? {
                    Entry::Vacant(_) => self.real.push(0),
                    Entry::Occupied(mut o) => {
                        self.real.push(1);
                        match op {
                            Op::EntryOccInsert(_) => {
                                let old = o.insert(V::new(nv));
                                self.real.push(old.v);
                                self.real.push(o.get_mut().v);
                                let m = o.into_mut();
                                m.v += 1;
                            }
                            Op::EntryOccSwapRemove(_) => self.real.push(o.swap_remove(&mut self.e, &mut self.g)?.v),
                            Op::EntryOccShiftRemove(_) => {
                                self.real.push(o.shift_remove(&mut self.e, &mut self.g)?.v)
                            }
                            Op::EntryOccRemove(_) => {
                                if nv % 2 == 0 {
                                    self.real.push(o.remove(&mut self.e, &mut self.g)?.v)
                                } else {
                                    self.real.push(o.remove_entry(&mut self.e, &mut self.g)?.1.v)
                                }
                            }
                            _ => {
                                let (k, v) = if matches!(op, Op::EntryOccSwapRemoveEntry(_)) {
                                    o.swap_remove_entry(&mut self.e, &mut self.g)?
                                } else {
                                    o.shift_remove_entry(&mut self.e, &mut self.g)?
                                };
                                self.real.extend([k.id as u32, k.tag, v.v]);
                            }
                        }
                    }
                }
                match f {
                    None => self.exp.push(0),
                    Some(i) => {
                        self.exp.push(1);
                        match op {
                            Op::EntryOccInsert(_) => {
                                self.exp.push(self.m[i].val);
                                self.exp.push(nv);
                                self.m[i].val = nv + 1;
                                self.next_val += 1;
                            }
                            _ => {
                                if matches!(op, Op::EntryOccSwapRemoveEntry(_) | Op::EntryOccShiftRemoveEntry(_)) {
                                    self.expk(i);
                                }
                                self.exp.push(self.m[i].val);
                                self.gone = Some(id);
                                if matches!(op, Op::EntryOccShiftRemove(_) | Op::EntryOccShiftRemoveEntry(_)) {
                                    self.m.remove(i);
                                } else {
                                    self.m.swap_remove(i);
                                }
                            }
                        }
                    }
                }
            }
            Op::EntryOccMove(k, p) => {
                let id = key!(k);
                let to = pos!(p);
                let f = match self.find(id) {
                    Some(f) => f,
                    None => return Ok(false),
                };
                let key = self.mk(id);
                self.guarded(to >= n, |w| {
                    match w.map.entry(key, &mut w.e, &mut w.g)? {
                        Entry::Occupied(o) => o.move_index(to, &mut w.e, &mut w.g)?,
                        Entry::Vacant(_) => w.real.push(0),
                    }
                    Ok(())
                })?;
                if to >= n {
                    self.exp.push(PANIC);
                } else {
                    let x = self.m.remove(f);
                    self.m.insert(to, x);
                }
            }
            Op::EntryVacShiftInsert(p) => {
                let i = pos!(p);
                let id = self.new_id();
                let key = self.mk(id);
                let tag = key.tag;
                let nv = self.val();
                self.guarded(i > n, |w| {
                    match w.map.entry(key, &mut w.e, &mut w.g)? {
                        Entry::Occupied(_) => w.real.push(0),
                        Entry::Vacant(v) => {
                            let r = v.shift_insert(i, V::new(nv), &mut w.e, &mut w.g)?;
                            w.real.push(r.v);
                            r.v += 1;
                        }
                    }
                    Ok(())
                })?;
                if i > n {
                    self.exp.push(PANIC);
                } else {
                    self.exp.push(nv);
                    self.next_val += 1;
                    let hash = self.e.hash[id as usize];
                    self.m.insert(i, Ent { id, tag, val: nv + 1, hash });
                }
            }
            Op::EntryVacInsertSorted => {
                if !self.sorted() {
                    return Ok(false);
                }
                let id = match self.gone {
                    Some(g) if self.find(g).is_none() => g,
                    _ => self.new_id(),
                };
                let key = self.mk(id);
                let tag = key.tag;
                let nv = self.val();
                match self.map.entry(key, &mut self.e, &mut self.g)? {
                    Entry::Occupied(_) => self.real.push(99999),
                    Entry::Vacant(v) => {
                        let (i, r) = v.insert_sorted(V::new(nv), &mut self.e, &mut self.g)?;
                        self.real.extend([i as u32, r.v]);
                    }
                }
                let at = self.m.partition_point(|x| x.id < id);
                self.exp.extend([at as u32, nv]);
                let hash = self.e.hash[id as usize];
                self.m.insert(at, Ent { id, tag, val: nv, hash });
            }
            Op::EntryVacInsertEntryThenRemove => {
                let id = self.new_id();
                let key = self.mk(id);
                let tag = key.tag;
                let nv = self.val();
                match self.map.entry(key, &mut self.e, &mut self.g)? {
                    Entry::Occupied(_) => self.real.push(99999),
                    Entry::Vacant(v) => {
                        let o = v.insert_entry(V::new(nv));
                        self.real.push(o.index() as u32);
                        let (k, v) = o.shift_remove_entry(&mut self.e, &mut self.g)?;
                        self.real.extend([k.id as u32, k.tag, v.v]);
                    }
                }
                self.exp.extend([n as u32, id as u32, tag, nv]);
                self.gone = Some(id);
            }
            Op::IdxEntryInsert(p) | Op::IdxEntrySwapRemove(p) | Op::IdxEntryShiftRemove(p) => {
                let i = pos!(p);
                let nv = self.val();
                match self.map.get_index_entry(i) {
                    None => self.real.push(0),
                    Some(mut x) => {
                        self.real.extend([1, x.index() as u32, x.key().id as u32, x.key().tag, x.get().v]);
                        match op {
                            Op::IdxEntryInsert(_) => {
                                let o = x.insert(V::new(nv));
                                self.real.push(o.v);
                                self.real.push(x.get_mut().v);
                                x.into_mut().v += 1;
                            }
                            Op::IdxEntrySwapRemove(_) => {
                                let (k, v) = x.swap_remove_entry(&mut self.e, &mut self.g)?;
                                self.real.extend([k.tag, v.v]);
                            }
                            _ => {
                                if nv % 2 == 0 {
                                    let (k, v) = x.shift_remove_entry(&mut self.e, &mut self.g)?;
                                    self.real.extend([k.tag, v.v]);
                                } else {
                                    let t = x.key().tag;
                                    let v = x.shift_remove(&mut self.e, &mut self.g)?;
                                    self.real.extend([t, v.v]);
                                }
                            }
                        }
                    }
                }
                if i >= n {
                    self.exp.push(0);
                } else {
                    let x = self.m[i];
                    self.exp.extend([1, i as u32, x.id as u32, x.tag, x.val]);
                    match op {
                        Op::IdxEntryInsert(_) => {
                            self.exp.extend([x.val, nv]);
                            self.m[i].val = nv + 1;
                            self.next_val += 1;
                        }
                        Op::IdxEntrySwapRemove(_) => {
                            self.exp.extend([x.tag, x.val]);
                            self.gone = Some(x.id);
                            self.m.swap_remove(i);
                        }
                        _ => {
                            self.exp.extend([x.tag, x.val]);
                            self.gone = Some(x.id);
                            self.m.remove(i);
                        }
                    }
                }
            }
            Op::IdxEntryMove(a, b) => {
                let (a, b) = (pos!(a), pos!(b));
                if a >= n {
                    return Ok(false);
                }
                self.guarded(b >= n, |w| {
                    if let Some(x) = w.map.get_index_entry(a) {
                        x.move_index(b, &mut w.e, &mut w.g)?;
                    } else {
                        w.real.push(0);
                    }
                    Ok(())
                })?;
                if b >= n {
                    self.exp.push(PANIC);
                } else {
                    let x = self.m.remove(a);
                    self.m.insert(b, x);
                }
            }
            Op::FirstEntrySwapRemove => {
                if let Some(x) = self.map.first_entry() {
                    let i = x.index() as u32;
                    let v = x.swap_remove(&mut self.e, &mut self.g)?;
                    self.real.extend([i, v.v]);
                }
                if n > 0 {
                    self.exp.extend([0, self.m[0].val]);
                    self.gone = Some(self.m[0].id);
                    self.m.swap_remove(0);
                }
            }
            Op::LastEntryShiftRemove => {
                if let Some(x) = self.map.last_entry() {
                    let i = x.index() as u32;
                    let v = x.shift_remove(&mut self.e, &mut self.g)?;
                    self.real.extend([i, v.v]);
                }
                if n > 0 {
                    self.exp.extend([n as u32 - 1, self.m[n - 1].val]);
                    self.gone = Some(self.m[n - 1].id);
                    self.m.pop();
                }
            }
            Op::OccFromIndex(p) => {
                let i = pos!(p);
                if i >= n {
                    return Ok(false);
                }
                let x = self.map.get_index_entry(i).unwrap();
                let o = rubymap::map::OccupiedEntry::from_index(x, &mut self.e, &mut self.g)?;
                self.real.extend([o.index() as u32, o.key().id as u32, o.get().v]);
                let (k, v) = o.shift_remove_entry(&mut self.e, &mut self.g)?;
                self.real.extend([k.tag, v.v]);
                let x = self.m.remove(i);
                self.gone = Some(x.id);
                self.exp.extend([i as u32, x.id as u32, x.val, x.tag, x.val]);
            }
            Op::IdxFromOcc(k) => {
                let id = key!(k);
                let f = match self.find(id) {
                    Some(f) => f,
                    None => return Ok(false),
                };
                let key = self.mk(id);
                if let Entry::Occupied(o) = self.map.entry(key, &mut self.e, &mut self.g)? {
                    let x: rubymap::map::IndexedEntry<'_, _, _, _, _, _> = o.into();
                    self.real.extend([x.index() as u32, x.get().v]);
                    let v = x.swap_remove(&mut self.e, &mut self.g)?;
                    self.real.push(v.v);
                }
                let x = self.m.swap_remove(f);
                self.gone = Some(id);
                self.exp.extend([f as u32, x.val, x.val]);
            }
        }
        Ok(true)
    }

    /// A tombstone window: delete while positions must stay put, look everything up, then compact.
    fn tomb(&mut self, op: Op) -> Result<bool, Fault> {
        let n = self.m.len();
        let mut dead: Vec<usize> = vec![];
        let mut todo: Vec<Result<u16, usize>> = vec![];
        match op {
            Op::TombRemove(k) => match self.key(k) {
                Some(id) => todo.push(Ok(id)),
                None => return Ok(false),
            },
            Op::TombIndex(p) => match self.pos(p) {
                Some(p) => todo.push(Err(p)),
                None => return Ok(false),
            },
            Op::TombTwo(k, p) => match (self.key(k), self.pos(p)) {
                (Some(id), Some(p)) => {
                    todo.push(Ok(id));
                    if self.find(id) != Some(p) {
                        todo.push(Err(p));
                    }
                    todo.push(Ok(id));
                }
                _ => return Ok(false),
            },
            Op::TombHeadKeepOne => {
                if n < 2 {
                    return Ok(false);
                }
                for i in 0..n - 1 {
                    if i % 2 == 0 {
                        todo.push(Err(i));
                    } else {
                        todo.push(Ok(self.m[i].id));
                    }
                }
            }
            _ => unreachable!(),
        }
        let live = |w: &Self, dead: &Vec<usize>, id: u16| -> Option<usize> {
            w.find(id).filter(|i| !dead.contains(i))
        };
        for t in todo {
            let dk = self.mk(DEAD);
            let dv = V::new(0);
            match t {
                Ok(id) => {
                    let key = self.mk(id);
                    let r = self.map.tombstone_remove(&key, dk, dv, &mut self.e, &mut self.g)?;
                    match r {
                        Some((i, k, v)) => self.real.extend([1, i as u32, k.id as u32, k.tag, v.v]),
                        None => self.real.push(0),
                    }
                    match live(self, &dead, id) {
                        Some(i) => {
                            let x = self.m[i];
                            self.exp.extend([1, i as u32, x.id as u32, x.tag, x.val]);
                            dead.push(i);
                        }
                        None => self.exp.push(0),
                    }
                }
                Err(i) => {
                    let r = self.map.tombstone_index(i, dk, dv, &mut self.e, &mut self.g)?;
                    match r {
                        Some((k, v)) => self.real.extend([1, k.id as u32, k.tag, v.v]),
                        None => self.real.push(0),
                    }
                    if i < n {
                        let x = self.m[i];
                        self.exp.extend([1, x.id as u32, x.tag, x.val]);
                        dead.push(i);
                    } else {
                        self.exp.push(0);
                    }
                }
            }
            // positions are stable and lookups see only the live entries
            self.real.push(self.map.len() as u32);
            self.exp.push(n as u32);
            for i in 0..n {
                let (k, v) = self.map.get_index(i).unwrap();
                let (id, tag, v) = (k.id as u32, k.tag, v.v);
                if dead.contains(&i) {
                    self.real.push(id);
                    self.exp.push(DEAD as u32);
                } else {
                    self.real.extend([id, tag, v]);
                    let x = self.m[i];
                    self.exp.extend([x.id as u32, x.tag, x.val]);
                }
                let id = self.m[i].id;
                let key = self.mk(id);
                let r = self.map.get_index_of(&key, &mut self.e, &mut self.g)?;
                push_opt(&mut self.real, r.map(|x| x as u32));
                let x = live(self, &dead, id).map(|x| x as u32);
                push_opt(&mut self.exp, x);
            }
        }
        self.map.compact_tombstones(|k| {
            user_code();
            k.id == DEAD
        });
        dead.sort();
        for i in dead.iter().rev() {
            let x = self.m.remove(*i);
            self.gone = Some(x.id);
        }
        Ok(true)
    }

    /// Everything observable about the map agrees with the specification.
    pub fn check_contents(&mut self) -> Result<(), String> {
        let n = self.m.len();
        if self.map.len() != n || self.map.is_empty() != (n == 0) {
            return Err(format!("len is {} (specified {n})", self.map.len()));
        }
        if self.map.capacity() < n {
            return Err(format!("capacity {} < len {n}", self.map.capacity()));
        }
        let mut it = self.map.iter();
        for (i, x) in self.m.iter().enumerate() {
            match it.next() {
                Some((k, v)) if k.id == x.id && k.tag == x.tag && v.v == x.val => {
                    if P::TRACKED && !(k.p.check() && v.p.check()) {
                        return Err(format!("entry {i} holds an element that was already dropped"));
                    }
                }
                r => return Err(format!("iteration yields {r:?} at {i}, specified {x:?}")),
            }
        }
        if let Some(r) = it.next() {
            return Err(format!("iteration yields {r:?} after the last entry"));
        }
        for i in 0..n {
            let x = self.m[i];
            let key = self.mk(x.id);
            let r = self
                .map
                .get_full(&key, &mut self.e, &mut self.g)
                .map_err(|f| format!("lookup reported {f:?}"))?
                .map(|(i, k, v)| (i, k.id, k.tag, v.v));
            let want = self.find(x.id).map(|j| (j, self.m[j].id, self.m[j].tag, self.m[j].val));
            if r != want {
                return Err(format!("lookup of k{} gives {r:?}, specified {want:?}", x.id));
            }
        }
        // absent keys
        for id in [self.gone.unwrap_or(self.fresh), self.fresh, self.fresh + 1] {
            let key = self.mk(id);
            let r = self
                .map
                .get_index_of(&key, &mut self.e, &mut self.g)
                .map_err(|f| format!("lookup reported {f:?}"))?;
            if r != self.find(id) {
                return Err(format!("lookup of k{id} gives {r:?}, specified {:?}", self.find(id)));
            }
        }
        if let Some(b) = self.e.bad_protocol.take() {
            return Err(b);
        }
        Ok(())
    }

    pub fn fingerprint(&self) -> u64 {
        let mut f = Fp::default();
        for x in &self.m {
            f.add(x.id as u64 | (x.val as u64) << 16);
            f.add(x.hash);
        }
        f.add(self.map.capacity() as u64);
        f.0
    }
}

#[derive(PartialEq)]
pub enum Calls {
    /// no user code runs
    None,
    /// `#hash` of the key is asked once
    OneHash,
    Any,
}
/// What an operation may ask of user code.
pub fn callbacks(op: Op) -> Calls {
    use Op::*;
    match op {
        Get(_) | GetKeyValue(_) | GetFull(_) | GetIndexOf(_) | Contains(_) | GetMut(_) | GetFullMut(_) | Insert(_)
        | InsertFull(_) | InsertSorted(_) | InsertBefore(..) | ShiftInsert(..) | SwapRemove(_) | SwapRemoveEntry(_)
        | SwapRemoveFull(_) | RemoveEntry(_) | ShiftRemove(_) | ShiftRemoveEntry(_) | ShiftRemoveFull(_)
        | EntryOrInsert(_) | EntryOrInsertWith(_) | EntryOrInsertWithKey(_) | EntryOrDefault(_)
        | EntryAndModifyOrInsert(_) | EntryInsertEntry(_) | EntryProbe(_) | EntryOccInsert(_) | EntryOccSwapRemove(_)
        | EntryOccShiftRemove(_) | EntryOccSwapRemoveEntry(_) | EntryOccShiftRemoveEntry(_) | EntryOccRemove(_)
        | EntryOccMove(..) | EntryVacShiftInsert(_) | EntryVacInsertSorted | EntryVacInsertEntryThenRemove
        | IdxFromOcc(_) => Calls::OneHash,
        GetIndex(_) | GetIndexMut(_) | IndexUsize(_) | IndexMutUsize(_) | FirstLast | FirstMut | LastMut
        | DisjointIdx(..) | InsertSym(_) | InsertPrehashed(_) | InsertPrehashedWith(_) | GetPrehashed(_)
        | GetPrehashedWith(_) | SwapRemoveIndex(_) | ShiftRemoveIndex(_) | Pop | Clear | Truncate(_) | Drain(_)
        | DrainPartial(..) | Retain(_) | SortKeys | SortUnstableKeys | SortByValDesc | SortUnstableByValDesc
        | SortByClass3 | SortByCached | Reverse | MoveIndex(..) | SortedBy | SortedUnstableBy | Reserve(_)
        | ReserveExact(_) | ShrinkToFit | ShrinkTo(_) | Op::Clone | MapKeys | IdxEntryInsert(_)
        | IdxEntrySwapRemove(_) | IdxEntryShiftRemove(_) | IdxEntryMove(..) | FirstEntrySwapRemove
        | LastEntryShiftRemove | OccFromIndex(_) => Calls::None,
        _ => Calls::Any,
    }
}

impl Exec {
    pub fn new_blank() -> Exec {
        Exec {
            hash: vec![],
            class: vec![],
            calls: 0,
            hash_calls: 0,
            eql_calls: 0,
            eql_on_different_hash: 0,
            fail_at: 0,
            panic_at: 0,
            stored: vec![],
            check_protocol: false,
            bad_protocol: None,
        }
    }
}

pub fn push_opt(v: &mut Vec<u32>, o: Option<u32>) {
    match o {
        Some(x) => v.extend([1, x]),
        None => v.push(0),
    }
}
pub fn pred(p: Pred, i: usize, n: usize, id: u16) -> bool {
    match p {
        Pred::All => true,
        Pred::None => false,
        Pred::Even => id % 2 == 0,
        Pred::NotFirst => i != 0,
        Pred::OnlyLast => i + 1 == n,
        Pred::Third => id % 3 != 0,
    }
}

pub const NKINDS: usize = 16;
pub fn kind_name(k: usize) -> &'static str {
    [
        "inserted one by one",
        "pre-sized",
        "after shift removals",
        "after swap removals",
        "grown then truncated",
        "cleared and refilled",
        "built through entry handles",
        "clone of a shrunk map",
        "shrunk to fit",
        "after a deletion-while-iterating window",
        "after retain",
        "tail of a split",
        "head drained",
        "re-keyed",
        "popped down",
        "rebuilt with churn",
    ][k]
}

/// Bring a fresh world to `n` entries along one of several histories.
pub fn build<P: Payload>(w: &mut World<P>, n: usize, kind: usize) -> Result<(), String> {
    let ins = |w: &mut World<P>, c: usize| -> Result<(), String> {
        for _ in 0..c {
            w.apply(Op::Insert(Key::New))?;
        }
        Ok(())
    };
    match kind {
        0 => ins(w, n)?,
        1 => {
            w.map = RubyMap::with_capacity_and_hasher(n.max(9) + 3, Ident);
            ins(w, n)?
        }
        2 => {
            ins(w, n + 3)?;
            w.apply(Op::ShiftRemoveIndex(Pos::Mid))?;
            w.apply(Op::ShiftRemove(Key::First))?;
            w.apply(Op::ShiftRemoveIndex(Pos::Zero))?;
            while w.m.len() > n {
                w.apply(Op::ShiftRemove(Key::Last))?;
                w.apply(Op::ShiftRemoveIndex(Pos::Zero))?;
            }
            while w.m.len() < n {
                w.apply(Op::Insert(Key::New))?;
            }
        }
        3 => {
            ins(w, n + 2)?;
            w.apply(Op::SwapRemoveIndex(Pos::Zero))?;
            w.apply(Op::SwapRemove(Key::First))?;
        }
        4 => {
            ins(w, n + 21)?;
            trunc(w, n)?;
        }
        5 => {
            ins(w, 12)?;
            w.apply(Op::Clear)?;
            ins(w, n)?
        }
        6 => {
            for _ in 0..n {
                w.apply(Op::EntryOrInsert(Key::New))?;
            }
        }
        7 => {
            ins(w, n + 9)?;
            trunc(w, n)?;
            w.apply(Op::Clone)?;
        }
        8 => {
            ins(w, n + 12)?;
            trunc(w, n)?;
            w.apply(Op::ShrinkToFit)?;
        }
        9 => {
            ins(w, n + 2)?;
            w.apply(Op::TombTwo(Key::First, Pos::Len))?;
            w.apply(Op::TombIndex(Pos::Zero))?;
        }
        10 => {
            ins(w, n + 1)?;
            w.apply(Op::Retain(Pred::NotFirst))?;
        }
        11 => {
            ins(w, 2 * n)?;
            let h = n;
            let other = w.map.split_off(h, &mut w.e, &mut w.g).map_err(|f| format!("{f:?}"))?;
            w.map = other;
            let t = w.m.split_off(h);
            w.gone = w.m.first().map(|x| x.id);
            w.m = t;
        }
        12 => {
            ins(w, n + 10)?;
            let d = w.map.drain(..10, &mut w.e, &mut w.g).map_err(|f| format!("{f:?}"))?;
            drop(d);
            w.gone = Some(w.m[3].id);
            w.m.drain(..10);
        }
        13 => {
            ins(w, n)?;
            w.apply(Op::MapKeys)?;
            w.apply(Op::Reserve(9))?;
        }
        14 => {
            ins(w, n + 12)?;
            for _ in 0..12 {
                w.apply(Op::Pop)?;
            }
        }
        _ => {
            // deletions and insertions interleaved: leaves deleted marks in the index
            ins(w, n)?;
            for i in 0..(n + 6) {
                w.apply(Op::Insert(Key::New))?;
                w.apply(if i % 3 == 0 {
                    Op::ShiftRemoveIndex(Pos::Zero)
                } else {
                    Op::SwapRemoveIndex(Pos::Zero)
                })?;
            }
        }
    }
    while w.m.len() > n {
        w.apply(Op::Pop)?;
    }
    if w.m.len() != n {
        return Err(format!("harness: start state has {} entries, wanted {n}", w.m.len()));
    }
    Ok(())
}
fn trunc<P: Payload>(w: &mut World<P>, n: usize) -> Result<(), String> {
    w.map.truncate(n, &mut w.e, &mut w.g).map_err(|f| format!("{f:?}"))?;
    w.gone = Some(w.m[n].id);
    w.m.truncate(n);
    Ok(())
}

pub const ALL_KEYS: [Key; 6] = [Key::First, Key::Second, Key::Mid, Key::Last, Key::New, Key::Gone];
pub const SOME_KEYS: [Key; 4] = [Key::First, Key::Mid, Key::Last, Key::New];

/// The operation alphabet, by group.
pub fn alphabet(groups: &str) -> Vec<Op> {
    use Op::*;
    let mut a = vec![Nop];
    let has = |g: &str| groups.split(' ').any(|x| x == g);
    if has("lookup") {
        for k in [Key::First, Key::Last, Key::New, Key::Gone] {
            a.extend([Get(k), GetKeyValue(k), GetFull(k), GetIndexOf(k), Contains(k), GetMut(k), GetFullMut(k)]);
        }
        for p in [Pos::Zero, Pos::Last, Pos::Len] {
            a.extend([GetIndex(p), GetIndexMut(p), IndexUsize(p), IndexMutUsize(p)]);
        }
        a.extend([FirstLast, FirstMut, LastMut]);
        a.extend([
            GetDisjoint(Key::First, Key::Last),
            GetDisjoint(Key::First, Key::First),
            GetDisjoint(Key::Mid, Key::New),
            DisjointIdx(Pos::Zero, Pos::Last),
            DisjointIdx(Pos::Zero, Pos::Zero),
            DisjointIdx(Pos::Zero, Pos::Len),
        ]);
    }
    if has("insert") {
        for k in ALL_KEYS {
            a.push(Insert(k));
        }
        for k in [Key::Mid, Key::New] {
            a.extend([InsertFull(k), InsertSorted(k)]);
        }
        for p in [Pos::Zero, Pos::One, Pos::Mid, Pos::Len, Pos::Over] {
            for k in [Key::First, Key::Last, Key::New] {
                a.push(InsertBefore(p, k));
                a.push(ShiftInsert(p, k));
            }
        }
        a.extend([Extend, Append, AppendInto]);
    }
    if has("fast") {
        for k in ALL_KEYS {
            a.extend([InsertSym(k), InsertPrehashed(k), InsertPrehashedWith(k), GetPrehashed(k), GetPrehashedWith(k)]);
        }
    }
    if has("remove") {
        for k in [Key::First, Key::Mid, Key::Last, Key::Gone] {
            a.extend([SwapRemove(k), ShiftRemove(k)]);
        }
        for k in [Key::First, Key::Second, Key::New] {
            a.extend([SwapRemoveEntry(k), SwapRemoveFull(k), ShiftRemoveEntry(k), ShiftRemoveFull(k)]);
        }
        a.push(RemoveEntry(Key::Mid));
        for p in [Pos::Zero, Pos::Mid, Pos::Last, Pos::Len] {
            a.extend([SwapRemoveIndex(p), ShiftRemoveIndex(p)]);
        }
        a.extend([Pop, Clear]);
        for p in [Pos::Zero, Pos::One, Pos::Mid, Pos::Last, Pos::Over] {
            a.push(Truncate(p));
        }
    }
    if has("bulk") {
        for r in [
            Ran::Full,
            Ran::Empty,
            Ran::Head,
            Ran::Tail,
            Ran::OneMid,
            Ran::Inner,
            Ran::HeadIncl,
            Ran::ExclFirst,
            Ran::Bad,
            Ran::Inverted,
        ] {
            a.push(Drain(r));
        }
        a.extend([DrainPartial(Ran::Full, 1, 0), DrainPartial(Ran::Inner, 1, 1), DrainPartial(Ran::Tail, 0, 1), DrainPartial(Ran::Head, 0, 0)]);
        for p in [Pos::Zero, Pos::One, Pos::Mid, Pos::Last, Pos::Len, Pos::Over] {
            a.extend([SplitOffKeepHead(p), SplitOffKeepTail(p)]);
        }
        for p in [Pred::All, Pred::None, Pred::Even, Pred::NotFirst, Pred::OnlyLast, Pred::Third] {
            a.push(Retain(p));
        }
    }
    if has("tomb") {
        for k in [Key::First, Key::Mid, Key::Last, Key::New, Key::Gone] {
            a.push(TombRemove(k));
        }
        for p in [Pos::Zero, Pos::Mid, Pos::Last, Pos::Len] {
            a.push(TombIndex(p));
        }
        a.extend([TombTwo(Key::First, Pos::Last), TombTwo(Key::Last, Pos::Zero), TombHeadKeepOne]);
    }
    if has("order") {
        a.extend([
            SortKeys,
            SortUnstableKeys,
            SortByValDesc,
            SortUnstableByValDesc,
            SortByClass3,
            SortByCached,
            Reverse,
            SortedBy,
            SortedUnstableBy,
        ]);
        for (x, y) in [
            (Pos::Zero, Pos::Last),
            (Pos::Last, Pos::Zero),
            (Pos::Zero, Pos::Mid),
            (Pos::Mid, Pos::Last),
            (Pos::Mid, Pos::One),
            (Pos::One, Pos::One),
            (Pos::Zero, Pos::Len),
            (Pos::Len, Pos::Zero),
        ] {
            a.push(MoveIndex(x, y));
        }
    }
    if has("storage") {
        a.extend([
            Reserve(0),
            Reserve(1),
            Reserve(9),
            Reserve(40),
            ReserveExact(1),
            ReserveExact(12),
            ShrinkToFit,
            ShrinkTo(0),
            ShrinkTo(9),
            ShrinkTo(30),
            Op::Clone,
            CloneFromOther(0),
            CloneFromOther(1),
            CloneFromOther(2),
            CloneMutate,
            MapKeys,
            Rebuild,
        ]);
    }
    if has("entry") {
        for k in SOME_KEYS {
            a.extend([EntryOrInsert(k), EntryProbe(k)]);
        }
        for k in [Key::Mid, Key::New] {
            a.extend([EntryOrInsertWith(k), EntryOrInsertWithKey(k), EntryOrDefault(k), EntryAndModifyOrInsert(k), EntryInsertEntry(k)]);
        }
        for k in [Key::First, Key::Mid, Key::Last, Key::Gone] {
            a.extend([EntryOccInsert(k), EntryOccSwapRemove(k), EntryOccShiftRemove(k)]);
        }
        for k in [Key::First, Key::Second] {
            a.extend([EntryOccSwapRemoveEntry(k), EntryOccShiftRemoveEntry(k), EntryOccRemove(k), IdxFromOcc(k)]);
        }
        for (k, p) in [
            (Key::First, Pos::Last),
            (Key::Last, Pos::Zero),
            (Key::Mid, Pos::One),
            (Key::Mid, Pos::Mid),
            (Key::First, Pos::Len),
        ] {
            a.push(EntryOccMove(k, p));
        }
        for p in [Pos::Zero, Pos::Mid, Pos::Len, Pos::Over] {
            a.push(EntryVacShiftInsert(p));
        }
        a.extend([EntryVacInsertSorted, EntryVacInsertEntryThenRemove, FirstEntrySwapRemove, LastEntryShiftRemove]);
    }
    if has("idxentry") {
        // positional handles
        for p in [Pos::Zero, Pos::Mid, Pos::Last, Pos::Len] {
            a.extend([IdxEntryInsert(p), IdxEntrySwapRemove(p), IdxEntryShiftRemove(p)]);
        }
        for (x, y) in [(Pos::Zero, Pos::Last), (Pos::Last, Pos::Zero), (Pos::Mid, Pos::One), (Pos::Zero, Pos::Len)] {
            a.push(IdxEntryMove(x, y));
        }
        for p in [Pos::Zero, Pos::Mid] {
            a.push(OccFromIndex(p));
        }
    }
    if has("stale") {
        for k in [Key::First, Key::Mid, Key::Last] {
            a.push(Stale(k));
        }
    }
    a
}

/// One execution: start state, operations, complete comparison at the end.
/// Every positional operation with every position (and every pair of positions) of a map of `n` entries.
pub fn positional(n: usize) -> Vec<Op> {
    use Op::*;
    let mut v = vec![];
    let n = n as u16;
    for i in 0..=n {
        let (p, k) = (Pos::At(i), Key::At(i));
        v.extend([ShiftInsert(p, Key::New), InsertBefore(p, Key::New), EntryVacShiftInsert(p), Truncate(p), SplitOffKeepHead(p), SplitOffKeepTail(p)]);
        if i == n {
            continue;
        }
        v.extend([
            Insert(k), SwapRemove(k), ShiftRemove(k), SwapRemoveIndex(p), ShiftRemoveIndex(p), TombRemove(k), TombIndex(p),
            EntryOccSwapRemove(k), EntryOccShiftRemove(k), IdxEntrySwapRemove(p), IdxEntryShiftRemove(p), IdxEntryInsert(p), OccFromIndex(p), IdxFromOcc(k),
        ]);
        for j in 0..=n {
            if j >= i {
                v.push(Drain(Ran::Of(i, j)));
            }
            v.push(InsertBefore(Pos::At(j), k));
            if j < n {
                let q = Pos::At(j);
                v.extend([MoveIndex(p, q), ShiftInsert(q, k), EntryOccMove(k, q), IdxEntryMove(p, q), TombTwo(k, q)]);
            }
        }
    }
    v
}

pub fn run_sequence<P: Payload>(
    profile: usize,
    n: usize,
    kind: usize,
    ops: &[Op],
    setup: impl Fn(&mut World<P>),
    ctx: &mut Ctx,
) -> Result<(), String> {
    let mut w: World<P> = World::new(profile);
    ctx.trace.clear();
    setup(&mut w);
    ctx.note(|| format!("start: {n} entries, {}, hashes: {}", kind_name(kind), profile_name(profile)));
    build(&mut w, n, kind)?;
    for op in ops {
        let ran = w.apply(*op)?;
        if ran {
            let (real, len) = (&w.real, w.m.len());
            ctx.step(|| format!("{op:?} -> {real:?} (len {len})"));
        }
    }
    w.check_contents()?;
    ctx.state(w.fingerprint());
    ctx.execution();
    Ok(())
}
