//! P22: control flow. Programs are nests of constructs around one action that leaves them; a small
//! interpreter in Rust says what each must log and answer.
use crate::*;
use engine::*;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Act {
    Nop,
    RaiseA,
    RaiseB,
    RaiseC,
    NoMethod,
    Next,
    Break,
    Return,
    Throw,
    Redo,
    /// the same with a variable that `ensure` clauses assign
    NextVar,
    BreakVar,
    ReturnVar,
}
use Act::*;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    RescueA(Act),
    RescueB(Act),
    RescueElse(Act),
    Ensure(Act),
    RescueEnsure(Act),
    Retry,
    While,
    DoWhile,
    Each,
    Times,
    Yielder,
    Lambda,
    Proc,
    Catch,
    InRescue,
    InElse,
    InEnsure,
    InEnsureRaise,
    Modifier,
    Loop,
    For,
    Map,
    Passed,
    Upto,
    Case,
    InEnsureReturn,
    InEnsureThrow,
    InEnsureBreak,
    RetryEnsure,
    RangeFor,
}
use Kind::*;

/// Exceptions: class and cause.
#[derive(Clone, PartialEq, Debug)]
struct Exc {
    class: &'static str,
    cause: Option<Box<Exc>>,
}
impl Exc {
    fn show(&self) -> String {
        match &self.cause {
            None => self.class.to_string(),
            Some(c) => format!("{}<{}", self.class, c.show()),
        }
    }
}
#[derive(Clone, PartialEq, Debug)]
enum Sig {
    Break(String),
    Next(String),
    Redo,
    Return(String),
    Raise(Exc),
    Throw(String),
}
type R = Result<String, Sig>;

/// The program: kinds from the outside in, and the action in the middle.
#[derive(Clone, Debug)]
pub struct Prog {
    kinds: Vec<Kind>,
    leaf: Act,
    /// whether `$!` is looked at as well
    info: bool,
}

fn act_text(a: Act, v: usize) -> String {
    match a {
        Nop => "nil".into(),
        RaiseA => "raise A".into(),
        RaiseB => "raise B".into(),
        RaiseC => "raise C".into(),
        NoMethod => "nil.nope".into(),
        Next => format!("next {v}"),
        Break => format!("break {v}"),
        Return => format!("return {v}"),
        Throw => format!("throw :t, {v}"),
        Redo => "redo if m == 3".into(),
        NextVar => "next w".into(),
        BreakVar => "break w".into(),
        ReturnVar => "return w".into(),
    }
}

impl Prog {
    /// Whether a `next` or `break` at this depth (inside the first `d` kinds) has a target.
    fn valid(&self) -> bool {
        let target = |d: usize| self.kinds[..d].iter().rev().find(|k| matches!(k, While | DoWhile | Each | Times | Yielder | Lambda | Proc | Catch | Loop | For | Map | Passed | Upto | InEnsureBreak | RangeFor));
        let ok = |a: Act, d: usize| match a {
            Break | BreakVar => target(d).is_some_and(|k| *k != Proc),
            Next | NextVar | Redo => target(d).is_some(),
            _ => true,
        };
        self.kinds.iter().enumerate().all(|(d, k)| match k {
            RescueA(a) | RescueB(a) | RescueElse(a) | Ensure(a) | RescueEnsure(a) => ok(*a, d),
            _ => true,
        }) && ok(self.leaf, self.kinds.len())
    }
    fn show(&self) -> String {
        format!("{:?} around {:?}", self.kinds, self.leaf).replace("Kind::", "")
    }
    fn text(&self, d: usize) -> String {
        let err = if self.info { "; l << ($! ? $!.class : 0)" } else { "" };
        if d == self.kinds.len() {
            return format!("l << 1{d}90{err}\nc += 1\nif m > 0 && (m < 3 || c == 2)\n{}\nend\n1{d}99", act_text(self.leaf, 800 + d));
        }
        let h = self.text(d + 1);
        let sec = |a: Act| format!("if m == 2\n{}\nend", act_text(a, 700 + d));
        let k = match self.kinds[d] {
            RescueA(a) => format!("begin\n{h}\nrescue A => e\nl << e.class{err}\n{}\n1{d}51\nend", sec(a)),
            RescueB(a) => format!("begin\n{h}\nrescue B\nl << 1{d}50{err}\n{}\n1{d}51\nend", sec(a)),
            RescueElse(a) => format!("begin\n{h}\nrescue A\n1{d}50\nelse\nl << 1{d}52{err}\n{}\n1{d}51\nend", sec(a)),
            Ensure(a) => format!("begin\n{h}\nensure\nw += 1\nl << 1{d}53{err}\n{}\n1{d}51\nend", sec(a)),
            RescueEnsure(a) => format!("begin\n{h}\nrescue A, C => e\nl << e.class{err}\n{}\n1{d}51\nensure\nw += 1\nl << 1{d}53{err}\nend", sec(a)),
            Retry => format!("begin\nn{d} += 1\n{h}\nrescue A\nl << n{d}{err}\nretry if n{d} < 3\n1{d}51\nend"),
            While => format!("while n{d} < 2\nn{d} += 1\n{h}\nend"),
            DoWhile => format!("(begin\nn{d} += 1\n{h}\nend while n{d} < 2)"),
            Each => format!("[1, 2].each do |x{d}|\nl << x{d}\n{h}\nend"),
            Times => format!("2.times do |x{d}|\nl << x{d}\n{h}\nend"),
            Upto => format!("4.upto(5) {{ |x{d}|\nl << x{d}\n{h}\n}}"),
            Map => format!("[1, 2].map {{ |x{d}|\n{h}\n}}"),
            Yielder => format!("yielder(l) {{ |x{d}|\nl << x{d}\n{h}\n}}"),
            Passed => format!("passed(l) {{ |x{d}|\nl << x{d}\n{h}\n}}"),
            Lambda => format!("lambda {{ |x{d}|\n{h}\n}}.call(1)"),
            Proc => format!("proc {{ |x{d}|\n{h}\n}}.call(1)"),
            Catch => format!("catch(:t) {{\n{h}\n}}"),
            InRescue => format!("begin\nraise C\nrescue C\n{h}\nend"),
            InElse => format!("begin\n1\nrescue C\n2\nelse\n{h}\nensure\nw += 1\nl << 1{d}53{err}\nend"),
            InEnsure => format!("begin\n1{d}54\nensure\n{h}\nend"),
            InEnsureRaise => format!("begin\nraise C\nensure\n{h}\nend"),
            Modifier => format!("(begin\n{h}\nend rescue 1{d}51)"),
            Loop => format!("loop do\nn{d} += 1\nbreak 1{d}55 if n{d} > 2\n{h}\nend"),
            For => format!("for x{d} in [1, 2] do\nl << x{d}\n{h}\nend"),
            InEnsureReturn => format!("begin\n[1].each {{ return 1{d}56 }}\nensure\n{h}\nend"),
            InEnsureThrow => format!("begin\nthrow :t, 1{d}57\nensure\n{h}\nend"),
            InEnsureBreak => format!("[9].each {{\nbegin\nbreak 1{d}58\nensure\n{h}\nend\n}}"),
            RetryEnsure => format!("begin\nn{d} += 1\n{h}\nrescue A\nbegin\nl << n{d}{err}\nretry if n{d} < 3\nensure\nw += 1\nl << 1{d}53{err}\nend\n1{d}51\nend"),
            RangeFor => format!("for x{d} in 1..2 do\nl << x{d}\n{h}\nend"),
            Case => format!("case m\nwhen 7 then 1\nelse\n{h}\nend"),
        };
        format!("l << 1{d}1\nn{d} = 0\nv{d} = {k}\nl << v{d}{err}\n1{d}9")
    }
    pub fn method(&self, name: &str) -> String {
        format!("def {name}(m, l)\nc = 0\nw = 11\n{}\nend\n", self.text(0))
    }
}

struct Model<'a> {
    p: &'a Prog,
    m: u8,
    c: usize,
    w: usize,
    log: Vec<String>,
    err: Option<Exc>,
}
impl Model<'_> {
    fn l(&mut self, s: impl ToString) {
        self.log.push(s.to_string());
    }
    fn info(&mut self) {
        if self.p.info {
            let s = self.err.as_ref().map_or("0".to_string(), |e| e.class.to_string());
            self.log.push(s);
        }
    }
    fn raise(&self, class: &'static str) -> R {
        Err(Sig::Raise(Exc { class, cause: self.err.clone().map(Box::new) }))
    }
    fn act(&self, a: Act, v: usize, d: usize) -> R {
        let v = v.to_string();
        let w = self.w.to_string();
        match a {
            Nop => Ok("nil".into()),
            NextVar => Err(Sig::Next(w)),
            BreakVar => Err(Sig::Break(w)),
            ReturnVar => Err(Sig::Return(w)),
            Redo if self.m == 3 => Err(Sig::Redo),
            Redo => Ok("nil".into()),
            RaiseA => self.raise("A"),
            RaiseB => self.raise("B"),
            RaiseC => self.raise("C"),
            NoMethod => self.raise("NoMethodError"),
            Next => Err(Sig::Next(v)),
            Break => Err(Sig::Break(v)),
            Return => Err(Sig::Return(v)),
            Throw if self.p.kinds[..d].contains(&Catch) => Err(Sig::Throw(v)),
            Throw => self.raise("UncaughtThrowError"),
        }
    }
    fn sec(&self, a: Act, d: usize) -> Result<(), Sig> {
        if self.m == 2 {
            self.act(a, 700 + d, d)?;
        }
        Ok(())
    }
    /// Run `f` with `$!` set to the exception, and put `$!` back.
    fn within(&mut self, e: Option<Exc>, f: impl FnOnce(&mut Self) -> R) -> R {
        let old = std::mem::replace(&mut self.err, e);
        let r = f(self);
        self.err = old;
        r
    }
    /// `ensure`: whatever happened, run the clause; if it leaves by itself, that is what counts.
    fn ensure(&mut self, r: R, f: impl FnOnce(&mut Self) -> Result<(), Sig>) -> R {
        let e = match &r {
            Err(Sig::Raise(e)) => Some(e.clone()),
            _ => self.err.clone(),
        };
        self.within(e, |s| f(s).map(|_| String::new()))?;
        r
    }
    fn rescue(&mut self, r: R, classes: &[&str], f: impl FnOnce(&mut Self, &Exc) -> R) -> R {
        match r {
            Err(Sig::Raise(e)) if classes.contains(&e.class) => self.within(Some(e.clone()), |s| f(s, &e)),
            r => r,
        }
    }
    /// A block given to a method: `next` ends the block with its value.
    fn block(&mut self, d: usize) -> R {
        self.block_after(d, |_| {})
    }
    /// The same for a block that starts with something else; `redo` does that again as well.
    fn block_after(&mut self, d: usize, mut f: impl FnMut(&mut Self)) -> R {
        loop {
            f(self);
            match self.run(d + 1) {
                Err(Sig::Next(v)) => return Ok(v),
                Err(Sig::Redo) => {}
                r => return r,
            }
        }
    }
    fn call(r: R) -> R {
        match r {
            Err(Sig::Break(v)) => Ok(v),
            r => r,
        }
    }
    fn run(&mut self, d: usize) -> R {
        if d == self.p.kinds.len() {
            self.l(format!("1{d}90"));
            self.info();
            self.c += 1;
            if self.m > 0 && (self.m < 3 || self.c == 2) {
                self.act(self.p.leaf, 800 + d, d)?;
            }
            return Ok(format!("1{d}99"));
        }
        self.l(format!("1{d}1"));
        let v = self.kind(d)?;
        self.l(&v);
        self.info();
        Ok(format!("1{d}9"))
    }
    fn kind(&mut self, d: usize) -> R {
        let v51 = || Ok(format!("1{d}51"));
        match self.p.kinds[d] {
            RescueA(a) => {
                let r = self.run(d + 1);
                self.rescue(r, &["A", "B"], |s, e| {
                    s.l(e.class);
                    s.info();
                    s.sec(a, d)?;
                    v51()
                })
            }
            RescueB(a) => {
                let r = self.run(d + 1);
                self.rescue(r, &["B"], |s, _| {
                    s.l(format!("1{d}50"));
                    s.info();
                    s.sec(a, d)?;
                    v51()
                })
            }
            RescueElse(a) => {
                let r = self.run(d + 1);
                if r.is_ok() {
                    self.l(format!("1{d}52"));
                    self.info();
                    self.sec(a, d)?;
                    return v51();
                }
                self.rescue(r, &["A", "B"], |_, _| Ok(format!("1{d}50")))
            }
            Ensure(a) => {
                let r = self.run(d + 1);
                self.ensure(r, |s| {
                    s.w += 1;
                    s.l(format!("1{d}53"));
                    s.info();
                    s.sec(a, d)
                })
            }
            RescueEnsure(a) => {
                let r = self.run(d + 1);
                let r = self.rescue(r, &["A", "B", "C"], |s, e| {
                    s.l(e.class);
                    s.info();
                    s.sec(a, d)?;
                    v51()
                });
                self.ensure(r, |s| {
                    s.w += 1;
                    s.l(format!("1{d}53"));
                    s.info();
                    Ok(())
                })
            }
            Retry | RetryEnsure => {
                let mut n = 0;
                loop {
                    n += 1;
                    let r = self.run(d + 1);
                    match r {
                        Err(Sig::Raise(e)) if e.class == "A" || e.class == "B" => {
                            let ensure = self.p.kinds[d] == RetryEnsure;
                            self.within(Some(e), |s| {
                                s.l(n);
                                s.info();
                                if ensure {
                                    s.w += 1;
                                    s.l(format!("1{d}53"));
                                    s.info();
                                }
                                Ok(String::new())
                            })?;
                            if n < 3 {
                                continue;
                            }
                            return v51();
                        }
                        r => return r,
                    }
                }
            }
            While | DoWhile => {
                let mut n = 0;
                while n < 2 {
                    match self.block_after(d, |_| n += 1) {
                        Err(Sig::Break(v)) => return Ok(v),
                        r => {
                            r?;
                        }
                    }
                }
                Ok("nil".into())
            }
            Each | Times | Upto | For | RangeFor => {
                let (a, v) = match self.p.kinds[d] {
                    Each | For => (1, "[1, 2]"),
                    RangeFor => (1, "1..2"),
                    Times => (0, "2"),
                    _ => (4, "4"),
                };
                let f = |s: &mut Self| {
                    for x in a..a + 2 {
                        s.block_after(d, |s| s.l(x))?;
                    }
                    Ok(v.to_string())
                };
                Self::call(f(self))
            }
            Map => {
                let f = |s: &mut Self| {
                    let x = s.block(d)?;
                    let y = s.block(d)?;
                    Ok(format!("[{x}, {y}]"))
                };
                Self::call(f(self))
            }
            Loop => {
                let mut n = 0;
                let r = loop {
                    n += 1;
                    if n > 2 {
                        break Ok(format!("1{d}55"));
                    }
                    match self.run(d + 1) {
                        Ok(_) | Err(Sig::Next(_) | Sig::Redo) => {}
                        r => break r,
                    }
                };
                Self::call(r)
            }
            Yielder => {
                let f = |s: &mut Self| {
                    for x in 1..3 {
                        let v = s.block_after(d, |s| s.l(x))?;
                        s.l(v);
                    }
                    Ok("5".to_string())
                };
                let r = f(self);
                let r = self.ensure(r, |s| {
                    s.l(61);
                    Ok(())
                });
                Self::call(r)
            }
            Passed => {
                let f = |s: &mut Self| {
                    for x in 1..3 {
                        let v = s.block_after(d, |s| s.l(x))?;
                        s.l(v);
                    }
                    Ok("6".to_string())
                };
                let r = f(self);
                let r = self.rescue(r, &["B"], |s, _| {
                    s.l(62);
                    Ok("7".into())
                });
                Self::call(r)
            }
            Lambda => match self.block(d) {
                Err(Sig::Break(v) | Sig::Return(v)) => Ok(v),
                r => r,
            },
            Proc => self.block(d),
            Catch => match Self::call(self.block(d)) {
                Err(Sig::Throw(v)) => Ok(v),
                r => r,
            },
            InRescue => {
                let e = Exc { class: "C", cause: self.err.clone().map(Box::new) };
                self.within(Some(e), |s| s.run(d + 1))
            }
            InElse => {
                let r = self.run(d + 1);
                self.ensure(r, |s| {
                    s.w += 1;
                    s.l(format!("1{d}53"));
                    s.info();
                    Ok(())
                })
            }
            InEnsure => {
                self.run(d + 1)?;
                Ok(format!("1{d}54"))
            }
            InEnsureRaise => {
                let e = Exc { class: "C", cause: self.err.clone().map(Box::new) };
                let r: R = Err(Sig::Raise(e));
                self.ensure(r, |s| s.run(d + 1).map(|_| ()))
            }
            InEnsureReturn => self.ensure(Err(Sig::Return(format!("1{d}56"))), |s| s.run(d + 1).map(|_| ())),
            InEnsureThrow => {
                let r = match self.p.kinds[..d].contains(&Catch) {
                    true => Err(Sig::Throw(format!("1{d}57"))),
                    false => self.raise("UncaughtThrowError"),
                };
                self.ensure(r, |s| s.run(d + 1).map(|_| ()))
            }
            InEnsureBreak => loop {
                match self.ensure(Err(Sig::Break(format!("1{d}58"))), |s| s.run(d + 1).map(|_| ())) {
                    Err(Sig::Break(v)) => return Ok(v),
                    Err(Sig::Next(_)) => return Ok("[9]".into()),
                    Err(Sig::Redo) => {}
                    r => return r,
                }
            },
            Modifier => {
                let r = self.run(d + 1);
                self.rescue(r, &["A", "B", "C", "NoMethodError", "UncaughtThrowError"], |_, _| v51())
            }
            Case => self.run(d + 1),
        }
    }
}
fn expect(p: &Prog, m: u8) -> String {
    let mut x = Model { p, m, c: 0, w: 11, log: vec![], err: None };
    let r = match x.run(0) {
        Ok(v) | Err(Sig::Return(v)) => v,
        Err(Sig::Raise(e)) => format!("!{}", e.show()),
        Err(s) => panic!("{s:?} leaves {}", p.show()),
    };
    format!("[{}] {r}", x.log.join(", "))
}

const PRELUDE: &str = r##"
class A < StandardError; end
class B < A; end
class C < StandardError; end
def yielder(l)
  l << yield(1)
  l << yield(2)
  5
ensure
  l << 61
end
def passed(l, &b)
  l << b.call(1)
  l << b.call(2)
  6
rescue B
  l << 62
  7
end
def __show(e)
  s = e.class.to_s
  while e = e.cause
    s << "<" << e.class.to_s
  end
  s
end
# Calls the block in all four modes while the code is interpreted, warms it up, and calls it in all
# modes again, often enough for leaving compiled code and for compiling anew.
MODES = [1, 2, 3, 0] + [0] * 20 + [1, 2, 3, 0] + [1] * 12 + [2] * 12 + [3] * 8 + [0] * 3 + [2, 1, 0]
def __modes
  seen = [nil, nil, nil, nil]
  k = 0
  while k < MODES.size
    m = MODES[k]
    l = []
    r = begin
      "#{yield(m, l).inspect}"
    rescue Exception => e
      "!" + __show(e)
    end
    s = "#{l.inspect} #{r}"
    if seen[m].nil?
      seen[m] = s
    elsif seen[m] != s
      return ["mode #{m} gives first #{seen[m]} but #{s} on call #{k}"] * 4
    end
    k += 1
  end
  seen
end
"##;

fn batch(name: String, desc: String, progs: Vec<Prog>, size: usize) -> Space<'static> {
    let n = progs.len().div_ceil(size);
    Space::new(name, format!("{desc}: {} programs, each in 4 modes, interpreted and compiled", progs.len()), n as u64, move |i, c| {
        let from = i as usize * size;
        let part = &progs[from..(from + size).min(progs.len())];
        let mut t = String::from("r = []\n");
        let mut want = vec![];
        for (k, p) in part.iter().enumerate() {
            t.push_str(&p.method(&format!("f{k}")));
            t.push_str(&format!("r.concat(__modes {{ |m, l| f{k}(m, l) }})\n"));
            for m in 0..4 {
                want.push((format!("{} mode {m}", p.show()), expect(p, m)));
            }
        }
        t.push_str("r.join('|')");
        run_items(t, want, c)
    })
}

const SECS: [Act; 6] = [Nop, RaiseC, Next, Break, Return, Throw];
const PLAIN: [Kind; 25] = [InEnsureReturn, InEnsureThrow, InEnsureBreak, RetryEnsure, RangeFor, Retry, While, DoWhile, Each, Times, Yielder, Lambda, Proc, Catch, InRescue, InElse, InEnsure, InEnsureRaise, Modifier, Loop, For, Map, Passed, Upto, Case];
const LEAVES: [Act; 11] = [RaiseA, RaiseB, NoMethod, Next, Break, Return, Throw, Redo, NextVar, BreakVar, ReturnVar];

fn all_kinds(secs: &[Act]) -> Vec<Kind> {
    let mut v = PLAIN.to_vec();
    for a in secs {
        v.extend([RescueA(*a), RescueB(*a), RescueElse(*a), Ensure(*a), RescueEnsure(*a)]);
    }
    v
}
fn nests(alphabets: &[Vec<Kind>], leaves: &[Act], info: bool) -> Vec<Prog> {
    let mut out: Vec<Vec<Kind>> = vec![vec![]];
    for a in alphabets {
        out = out.iter().flat_map(|v| a.iter().map(move |k| [v.clone(), vec![*k]].concat())).collect();
    }
    out.into_iter().flat_map(|kinds| leaves.iter().map(move |l| Prog { kinds: kinds.clone(), leaf: *l, info })).filter(|p| p.valid()).collect()
}

pub fn plan(tier: Tier) -> Plan {
    let th = tier == Tier::Thorough;
    let full = all_kinds(&SECS);
    let bare = all_kinds(&[Nop]);
    let mut spaces = vec![];
    let mut add = |name: &str, desc: &str, progs: Vec<Prog>| spaces.push(batch(name.into(), desc.into(), progs, 16));
    add("plain-2", "all pairs of constructs with every action in the middle and in their clauses", nests(&[full.clone(), full.clone()], &LEAVES, false));
    add("nest-1", "one construct with every action in it and in its clause", nests(&[full.clone()], &LEAVES, true));
    add("nest-2", "all pairs of constructs with every action in the middle and in their clauses, looking at $!", nests(&[full.clone(), full.clone()], &LEAVES, true));
    if th {
        add("nest-3", "all triples of constructs with every action in the middle and in the middle one's clauses", nests(&[bare.clone(), full.clone(), bare.clone()], &LEAVES, true));
    } else {
        let few = vec![RescueA(Nop), Ensure(Nop), While, Each, Yielder, Lambda, Proc, Catch, InRescue, InEnsure, Times];
        let outer = vec![RescueA(Nop), Ensure(Nop), While, Each, Lambda, Catch, InEnsureRaise, Loop];
        add("nest-3", "all triples of the main constructs with every action in the middle", nests(&[outer, few.clone(), few], &LEAVES, false));
    }
    Plan {
        prelude: PRELUDE.to_string(),
        rule: "what the program logs, the values of its constructs, its result or exception with its causes, and $! are those of Ruby's rules, in every mode and at every stage of warming up".into(),
        spaces,
    }
}
