//! P18: what the attributes put around built-in methods and wrapped objects, run against a stand-in
//! interpreter that has exactly the types and functions the generated code names.
#![allow(dead_code)]
use engine::*;
use monoruby_attr::{monoruby_builtin, monoruby_object};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Value(u64);
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Lfp(usize);
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct FuncId(usize);
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct BytecodePtr(usize);
impl Lfp {
    /// Methods run again in deeper frames.
    pub fn func_id(&self) -> FuncId {
        FuncId(self.0 % 3)
    }
}
#[derive(Clone, PartialEq, Debug)]
pub enum MonorubyErrKind {
    MethodReturn(Value, Lfp),
    Throw(Value, Value),
    Exception(u8),
    Fatal,
}
#[derive(Clone, PartialEq, Debug)]
pub struct MonorubyErr {
    kind: MonorubyErrKind,
    trace: Vec<FuncId>,
}
impl MonorubyErr {
    pub fn kind(&self) -> &MonorubyErrKind {
        &self.kind
    }
    fn new(kind: MonorubyErrKind) -> Self {
        MonorubyErr { kind, trace: vec![] }
    }
}
pub type Result<T> = std::result::Result<T, MonorubyErr>;

/// What one level of nested calls does.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Act {
    /// answer a value
    Value(u64),
    /// fail with an exception
    Raise(u8),
    /// return from the frame at this depth (possibly one that is not on the stack)
    ReturnFrom(usize),
    /// throw to a catch
    Throw,
    /// call the next level and pass its outcome on
    Pass,
    /// call the next level; swallow a failure
    Rescue,
    /// call the next level; turn a failure into another one
    Reraise(u8),
    /// call the next level twice and pass the second outcome on if the first was a value
    Twice,
}
#[derive(Default)]
pub struct Executor {
    error: Option<MonorubyErr>,
    sets: usize,
    acts: Vec<Act>,
    log: Vec<String>,
}
#[derive(Default)]
pub struct Globals {
    touched: usize,
}
impl Executor {
    pub fn set_error(&mut self, e: MonorubyErr) {
        self.sets += 1;
        self.error = Some(e);
    }
    pub fn take_error(&mut self) -> MonorubyErr {
        self.error.take().expect("a call failed without an error")
    }
    pub fn error(&self) -> Option<&MonorubyErr> {
        self.error.as_ref()
    }
}
pub mod builtins {
    pub mod kernel {
        use crate::*;
        pub fn push_builtin_trace(_: &Executor, _: &Globals, err: &mut MonorubyErr, fid: FuncId) {
            err.trace.push(fid);
        }
    }
}

const FRAME: usize = 0x7000;
/// The body of a built-in method at any depth.
fn body(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, pc: BytecodePtr) -> Result<Value> {
    let depth = lfp.0 - FRAME;
    globals.touched += 1;
    vm.log.push(format!("{depth}@{}", pc.0));
    let act = vm.acts[depth];
    let next = |vm: &mut Executor, globals: &mut Globals| -> Result<Value> {
        let (l, p) = (Lfp(lfp.0 + 1), BytecodePtr(pc.0 * 3 + 1));
        let r = match depth % 3 {
            0 => first(vm, globals, l, p),
            1 => second(vm, globals, l, p),
            _ => third(vm, globals, l, p),
        };
        match r {
            Some(v) => {
                if let Some(e) = vm.error() {
                    return Err(MonorubyErr { kind: MonorubyErrKind::Fatal, trace: e.trace.clone() });
                }
                Ok(v)
            }
            None => Err(vm.take_error()),
        }
    };
    match act {
        Act::Value(v) => Ok(Value(v)),
        Act::Raise(n) => Err(MonorubyErr::new(MonorubyErrKind::Exception(n))),
        Act::ReturnFrom(d) => Err(MonorubyErr::new(MonorubyErrKind::MethodReturn(Value(40 + depth as u64), Lfp(FRAME + d)))),
        Act::Throw => Err(MonorubyErr::new(MonorubyErrKind::Throw(Value(1), Value(2)))),
        Act::Pass => next(vm, globals),
        Act::Rescue => Ok(next(vm, globals).unwrap_or(Value(77))),
        Act::Reraise(n) => next(vm, globals).map_err(|_| MonorubyErr::new(MonorubyErrKind::Exception(n))),
        Act::Twice => {
            next(vm, globals)?;
            next(vm, globals)
        }
    }
}
#[monoruby_builtin]
fn first(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, pc: BytecodePtr) -> Result<Value> {
    body(vm, globals, lfp, pc)
}
#[monoruby_builtin]
pub fn second(vm: &mut Executor, globals: &mut Globals, l: Lfp, p: BytecodePtr) -> Result<Value> {
    let r = body(vm, globals, l, p)?;
    Ok(r)
}
#[monoruby_builtin]
fn third(executor: &mut Executor, g: &mut Globals, frame: Lfp, pc: BytecodePtr) -> Result<Value> {
    match body(executor, g, frame, pc) {
        Ok(v) => return Ok(v),
        Err(e) => return Err(e),
    }
}

/// The outcome the nesting must have: a value, or a pending error.
fn model(acts: &[Act], depth: usize, log: &mut Vec<String>, pc: usize) -> std::result::Result<u64, MonorubyErr> {
    log.push(format!("{depth}@{pc}"));
    let mut next = || model(acts, depth + 1, log, pc * 3 + 1);
    let out = match acts[depth] {
        Act::Value(v) => Ok(v),
        Act::Raise(n) => Err(MonorubyErr::new(MonorubyErrKind::Exception(n))),
        Act::ReturnFrom(d) => Err(MonorubyErr::new(MonorubyErrKind::MethodReturn(Value(40 + depth as u64), Lfp(FRAME + d)))),
        Act::Throw => Err(MonorubyErr::new(MonorubyErrKind::Throw(Value(1), Value(2)))),
        Act::Pass => next(),
        Act::Rescue => Ok(next().unwrap_or(77)),
        Act::Reraise(n) => next().map_err(|_| MonorubyErr::new(MonorubyErrKind::Exception(n))),
        Act::Twice => match next() {
            Ok(_) => next(),
            e => e,
        },
    };
    match out {
        Err(MonorubyErr { kind: MonorubyErrKind::MethodReturn(v, l), .. }) if l.0 == FRAME + depth => Ok(v.0),
        Err(mut e) => {
            e.trace.push(Lfp(FRAME + depth).func_id());
            Err(e)
        }
        ok => ok,
    }
}

fn nests(depth: usize) -> Space<'static> {
    let mut inner = vec![Act::Pass, Act::Rescue, Act::Reraise(9), Act::Twice];
    let mut leaves = vec![Act::Value(5), Act::Raise(1), Act::Raise(2), Act::Throw];
    for d in 0..=depth + 1 {
        leaves.push(Act::ReturnFrom(d));
    }
    inner.extend(leaves.clone());
    let n = inner.len();
    let count = (n as u64).pow(depth as u32) * leaves.len() as u64;
    Space::new(
        format!("nested built-in methods, depth {}", depth + 1),
        format!("all {count} nestings of {} built-in methods: values, failures, returns to any frame on or off the stack, passing on, rescuing, replacing and repeating; from each of three wrapped methods", depth + 1),
        count * 3,
        move |i, ctx| {
            let mut r = Radix(i);
            let start = r.take(3);
            let mut acts: Vec<Act> = (0..depth).map(|_| inner[r.take(n)]).collect();
            acts.push(leaves[r.take(leaves.len())]);
            // a method below the last answers at once
            acts.push(Act::Value(6));
            let mut vm = Executor { acts: acts.clone(), ..Default::default() };
            let mut g = Globals::default();
            let f: extern "C" fn(&mut Executor, &mut Globals, Lfp, BytecodePtr) -> Option<Value> = [first, second, third][start];
            let got = f(&mut vm, &mut g, Lfp(FRAME), BytecodePtr(2));
            let mut log = vec![];
            let want = model(&acts, 0, &mut log, 2);
            ctx.step(|| format!("{acts:?} -> {got:?}"));
            if vm.log != log || g.touched != log.len() {
                return Err(format!("{acts:?}: bodies run {:?} instead of {log:?}", vm.log));
            }
            match (&want, got) {
                (Ok(v), Some(g)) if g.0 == *v => {
                    if let Some(e) = &vm.error {
                        return Err(format!("{acts:?}: answers {v} but leaves the error {e:?} pending"));
                    }
                }
                (Err(e), None) => {
                    if vm.error.as_ref() != Some(e) {
                        return Err(format!("{acts:?}: pending error {:?} instead of {e:?}", vm.error));
                    }
                }
                _ => return Err(format!("{acts:?}: outcome {got:?} instead of {want:?}")),
            }
            ctx.state(mix(i));
            ctx.execution();
            Ok(())
        },
    )
}

// Wrapped objects.
thread_local! {
    static EVENTS: std::cell::RefCell<Vec<(char, u64)>> = const { std::cell::RefCell::new(vec![]) };
    static HEAP: std::cell::UnsafeCell<[Inner; 4]> = const { std::cell::UnsafeCell::new([Inner(0), Inner(0), Inner(0), Inner(0)]) };
}
#[derive(Debug, Clone, Copy, PartialEq)]
pub struct Inner(u64);
impl Inner {
    fn get(&self) -> u64 {
        self.0
    }
    fn set(&mut self, x: u64) {
        EVENTS.with(|e| e.borrow_mut().push(('s', x)));
        self.0 = x;
    }
}
pub type PlainInner = Inner;
pub type GuardedInner = Inner;
pub struct RValue;
fn event(c: char, v: Value) {
    EVENTS.with(|e| e.borrow_mut().push((c, v.0)));
}
impl Value {
    pub fn id(self) -> u64 {
        self.0
    }
    fn at(&self, plain: bool) -> *mut Inner {
        HEAP.with(|h| unsafe { &mut (*h.get())[self.0 as usize] as *mut Inner }.wrapping_add(0 * plain as usize))
    }
    pub unsafe fn as_plain_inner(&self) -> &Inner {
        event('r', *self);
        unsafe { &*self.at(true) }
    }
    pub unsafe fn as_plain_inner_mut(&mut self) -> &mut Inner {
        event('w', *self);
        unsafe { &mut *self.at(true) }
    }
    pub unsafe fn as_guarded_inner(&self) -> &Inner {
        event('r', *self);
        unsafe { &*self.at(false) }
    }
    pub unsafe fn as_guarded_inner_mut(&mut self) -> &mut Inner {
        event('w', *self);
        unsafe { &mut *self.at(false) }
    }
    pub fn write_barrier_bulk(&self) {
        event('b', *self);
    }
    pub fn mark(&self, a: &mut alloc::Allocator<RValue>) {
        a.marked.push(self.0);
    }
}
pub mod alloc {
    pub struct Allocator<T> {
        pub marked: Vec<u64>,
        pub p: std::marker::PhantomData<T>,
    }
    pub trait GC<T> {
        fn mark(&self, alloc: &mut Allocator<T>);
    }
}
#[monoruby_object]
pub struct Plain(Value);
#[monoruby_object(write_barrier)]
pub struct Guarded(Value);

const OBJ_OPS: usize = 9;
/// All short histories of uses of two wrapped objects.
fn objects(len: usize) -> Space<'static> {
    let n = OBJ_OPS * 2;
    Space::new(
        format!("wrapped objects, {len} uses"),
        format!("all histories of {len} uses (reading, writing, borrowing for writing without writing, copying, marking, unwrapping, rewrapping, address, comparing) of two objects, for a plain and a barrier-protected wrapper: each use reaches exactly its object, and no object of the protected kind is ever handed out for writing before its barrier ran"),
        (n as u64).pow(len as u32) * 2,
        move |i, ctx| {
            use crate::alloc::GC as _;
            let mut r = Radix(i);
            let guarded = r.take(2) == 1;
            HEAP.with(|h| unsafe { *h.get() = [Inner(10), Inner(20), Inner(30), Inner(40)] });
            EVENTS.with(|e| e.borrow_mut().clear());
            let mut model = [10u64, 20];
            let mut armed = [false; 2];
            macro_rules! drive {
                ($t:ident) => {{
                    let mut objs = [$t::new_unchecked(Value(0)), $t::new_unchecked(Value(1))];
                    for step in 0..len {
                        let x = r.take(n);
                        let (o, op) = (x % 2, x / 2);
                        EVENTS.with(|e| e.borrow_mut().clear());
                        let mut writes = false;
                        match op {
                            0 => {
                                let v = objs[o].get();
                                if v != model[o] {
                                    return Err(format!("reading object {o} gives {v} instead of {}", model[o]));
                                }
                            }
                            1 => {
                                objs[o].set(100 * step as u64 + 7);
                                model[o] = 100 * step as u64 + 7;
                                writes = true;
                            }
                            2 => {
                                let m: &mut Inner = &mut objs[o];
                                let _ = m.get();
                                writes = true;
                            }
                            3 => {
                                let mut c = objs[o];
                                c.set(300 + step as u64);
                                model[o] = 300 + step as u64;
                                objs[o] = c;
                                writes = true;
                            }
                            4 => {
                                let mut a = alloc::Allocator { marked: vec![], p: std::marker::PhantomData };
                                objs[o].mark(&mut a);
                                if a.marked != [o as u64] {
                                    return Err(format!("marking object {o} marked {:?}", a.marked));
                                }
                            }
                            5 => {
                                let v: Value = objs[o].into();
                                if v != Value(o as u64) || objs[o].as_val() != v {
                                    return Err(format!("unwrapping object {o} gives {v:?}"));
                                }
                            }
                            6 => objs[o] = $t::new_unchecked(objs[o].as_val()),
                            7 => {
                                if objs[o].as_ptr() as u64 != o as u64 {
                                    return Err(format!("object {o} is at {:?}", objs[o].as_ptr()));
                                }
                            }
                            _ => {
                                let b = Box::new(objs[o].clone());
                                if b.get() != model[o] {
                                    return Err(format!("a copy of object {o} shows {}", b.get()));
                                }
                            }
                        }
                        let ev = EVENTS.with(|e| e.borrow().clone());
                        for (j, (c, who)) in ev.iter().enumerate() {
                            if *c == 'w' {
                                let before = ev[..j].iter().any(|(c, w)| *c == 'b' && w == who);
                                if guarded && !before {
                                    return Err(format!("object {who} was handed out for writing before its barrier ran: {ev:?}"));
                                }
                            }
                            if *c != 's' && *who != o as u64 {
                                return Err(format!("using object {o} touched object {who}"));
                            }
                        }
                        if writes && !ev.iter().any(|(c, _)| *c == 'w') {
                            return Err(format!("object {o} was written without being borrowed for writing: {ev:?}"));
                        }
                        armed[o] |= writes;
                        ctx.step(|| format!("object {o} use {op}: {ev:?}"));
                    }
                }};
            }
            if guarded {
                drive!(Guarded)
            } else {
                drive!(Plain)
            }
            let now = HEAP.with(|h| unsafe { [(*h.get())[0].0, (*h.get())[1].0, (*h.get())[2].0, (*h.get())[3].0] });
            if now != [model[0], model[1], 30, 40] {
                return Err(format!("the objects are {now:?} instead of {model:?}"));
            }
            ctx.state(mix(i + 0x4000_0000) ^ len as u64);
            ctx.execution();
            Ok(())
        },
    )
}

fn main() {
    let tier = tier_from_args();
    let th = tier == Tier::Thorough;
    let mut spaces = vec![];
    for d in 0..=(if th { 5 } else { 4 }) {
        spaces.push(nests(d));
    }
    for l in 1..=(if th { 5 } else { 4 }) {
        spaces.push(objects(l));
    }
    Check {
        property: "P18",
        tier,
        rule: "a built-in method's value reaches its caller; a failure becomes the one pending error with this method's frame added once; a non-local return addressed to the method's own frame ends there with its value and nothing pending, and passes through any other; wrapped objects are reached exactly and a protected one is never handed out for writing before its barrier ran".into(),
        assumptions: vec!["the generated code is compiled against stand-ins for the interpreter types it names".into()],
        spaces,
    }
    .main();
}
