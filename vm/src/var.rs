//! P28: instance variables, constants and class variables at warm places of the program, against small models.
use crate::*;
use engine::*;

#[derive(Clone, PartialEq, Debug)]
enum V {
    Nil,
    Int(i64),
    Float(f64),
    Bool(bool),
    Str(&'static str),
    List(Vec<V>),
    Err(&'static str),
}
use V::*;

fn show(v: &V) -> String {
    match v {
        Nil => "nil".into(),
        Int(i) => i.to_string(),
        Float(f) => format!("{f:?}"),
        Bool(b) => b.to_string(),
        Str(s) => s.to_string(),
        List(v) => format!("[{}]", v.iter().map(show).collect::<Vec<_>>().join(", ")),
        Err(e) => format!(":{e}"),
    }
}

/// One object: variables @v0 to @v8.
#[derive(Clone, Default)]
struct Obj {
    v: [Option<V>; 9],
    frozen: bool,
}
impl Obj {
    fn get(&self, i: usize) -> V {
        self.v[i].clone().unwrap_or(Nil)
    }
    fn set(&mut self, i: usize, x: V) -> V {
        if self.frozen {
            return Err("FrozenError");
        }
        self.v[i] = Some(x.clone());
        x
    }
    fn add(&mut self, i: usize, x: V) -> V {
        let s = match (self.get(i), x) {
            (Int(a), Int(b)) => Int(a + b),
            (Int(a), Float(b)) => Float(a as f64 + b),
            (Float(a), Int(b)) => Float(a + b as f64),
            (Float(a), Float(b)) => Float(a + b),
            (Str(_), _) => return Err("TypeError"),
            _ => return Err("NoMethodError"),
        };
        self.set(i, s)
    }
    fn remove(&mut self, i: usize) -> V {
        if self.frozen {
            return Err("FrozenError");
        }
        self.v[i].take().unwrap_or(Err("NameError"))
    }
    fn all(&self) -> V {
        List(self.v.iter().enumerate().filter_map(|(i, v)| v.as_ref().map(|v| List(vec![Int(i as i64), v.clone()]))).collect())
    }
}
struct W {
    o: Obj,
    q: Obj,
}
type Op = (&'static str, fn(&mut W) -> V);

fn ops() -> Vec<Op> {
    vec![
        ("@v0 = 1", |w| w.o.set(0, Int(1))),
        ("@v1 = 1.5", |w| w.o.set(1, Float(1.5))),
        ("@v8 = 'x'", |w| w.o.set(8, Str("x"))),
        ("@v5 = 2", |w| w.o.set(5, Int(2))),
        ("@v6 = nil", |w| w.o.set(6, Nil)),
        ("@v0", |w| w.o.get(0)),
        ("[@v0, @v1, @v5, @v6, @v8]", |w| List([0, 1, 5, 6, 8].map(|i| w.o.get(i)).to_vec())),
        ("@v0 += 1", |w| w.o.add(0, Int(1))),
        ("@v1 += 0.5", |w| w.o.add(1, Float(0.5))),
        ("@v0 += 0.25", |w| w.o.add(0, Float(0.25))),
        ("@v6 ||= 3", |w| if w.o.get(6) == Nil { w.o.set(6, Int(3)) } else { w.o.get(6) }),
        ("@v0 &&= 4", |w| if w.o.get(0) == Nil { Nil } else { w.o.set(0, Int(4)) }),
        ("defined?(@v0)", |w| if w.o.v[0].is_some() { Str("instance-variable") } else { Nil }),
        ("instance_variable_defined?(:@v6)", |w| Bool(w.o.v[6].is_some())),
        ("instance_variable_set(:@v0, 5)", |w| w.o.set(0, Int(5))),
        ("instance_variable_set(:@v7, 5)", |w| w.o.set(7, Int(5))),
        ("instance_variable_get(:@v1)", |w| w.o.get(1)),
        ("remove_instance_variable(:@v0)", |w| w.o.remove(0)),
        ("remove_instance_variable(:@v8)", |w| w.o.remove(8)),
        ("freeze; 0", |w| {
            w.o.frozen = true;
            Int(0)
        }),
        ("(@v0, @v1 = @v1, @v0; 0)", |w| {
            let (a, b) = (w.o.get(0), w.o.get(1));
            if let e @ Err(_) = w.o.set(0, b) {
                return e;
            }
            w.o.set(1, a);
            Int(0)
        }),
        ("[1].each { @v0 = 6 }; 0", |w| if let e @ Err(_) = w.o.set(0, Int(6)) { e } else { Int(0) }),
        ("__y { @v1 = @v0 }", |w| {
            let x = w.o.get(0);
            w.o.set(1, x)
        }),
        ("q.s0(7)", |w| w.q.set(0, Int(7))),
        ("q.s8(@v0)", |w| {
            let x = w.o.get(0);
            w.q.set(8, x)
        }),
        ("q.g0", |w| w.q.get(0)),
        ("[q.g8, g8]", |w| List(vec![w.q.get(8), w.o.get(8)])),
        ("(i = 0; while i < 3; @v0 = i; q.s1(@v0); i += 1; end; @v0)", |w| {
            for i in 0..3 {
                if let e @ Err(_) = w.o.set(0, Int(i)) {
                    return e;
                }
                if let e @ Err(_) = w.q.set(1, Int(i)) {
                    return e;
                }
            }
            Int(2)
        }),
        ("(i = 0; while i < 3; @v1 = i + 0.5; i += 1; end; @v1)", |w| {
            if w.o.frozen {
                return Err("FrozenError");
            }
            w.o.set(1, Float(2.5))
        }),
        ("__fill; 0", |w| {
            for i in 0..9 {
                if let e @ Err(_) = w.o.set(i, Int(10 + i as i64)) {
                    return e;
                }
            }
            Int(0)
        }),
        ("self.a0 = 8", |w| {
            // the value of an assignment is its right-hand side, but a frozen object raises
            w.o.set(0, Int(8))
        }),
        ("a0", |w| w.o.get(0)),
        ("self.a7 = 8.5", |w| w.o.set(7, Float(8.5))),
        ("[a7, q.a7]", |w| List(vec![w.o.get(7), w.q.get(7)])),
    ]
}

/// How a receiver is made, and whether it takes variables at all.
const KINDS: [(&str, bool); 18] = [
    ("A.new", false),
    ("B.new", false),
    ("C.new", false),
    ("'s'.dup", false),
    ("[1]", false),
    ("{}", false),
    ("Class.new", false),
    ("Module.new", false),
    ("proc {}", false),
    ("StandardError.new", false),
    ("S.new(1)", false),
    ("(x = A.new; def x.z = 1; x)", false),
    ("Str.new('y')", false),
    ("Arr.new", false),
    ("5", true),
    (":s", true),
    ("nil", true),
    ("2.5", true),
];

fn prelude() -> String {
    let mut t = String::from("class Object\n");
    for i in 0..9 {
        t.push_str(&format!("def g{i} = @v{i}\ndef s{i}(x) = (@v{i} = x)\n"));
    }
    t.push_str("def a0 = @v0\ndef a7 = @v7\n");
    t.push_str("def __fill\n");
    for i in 0..9 {
        t.push_str(&format!("@v{i} = {}\n", 10 + i));
    }
    t.push_str("end\n");
    t.push_str(
        r##"
  def a0=(x)
    @v0 = x
  end
  def a7=(x)
    @v7 = x
  end
  def __y = yield
  def __all = (0..8).select { |i| instance_variable_defined?("@v#{i}") }.map { |i| [i, instance_variable_get("@v#{i}")] }
  def __names = instance_variables.select { |n| n.to_s.start_with?('@v') }.size
end
class A
end
class B < A
end
# the last variables first
class C
  def self.pre
    o = new
    o.s8(1)
    o.s5(1)
    o.s0(1)
  end
  pre
end
S = Struct.new(:m)
class Str < String
end
class Arr < Array
end
def __make(k)
  case k
"##,
    );
    for (i, k) in KINDS.iter().enumerate() {
        t.push_str(&format!("  when {i} then {}\n", k.0));
    }
    t.push_str(
        r##"
  end
end
# `runs` calls in a row for each kind, then one of each in turn
def __each(runs)
  at = R.size
  [runs, 1, 1].each_with_index do |n, turn|
    k = 0
    while k < KINDS
      j = 0
      while j < n
        o = __make(k)
        q = __make(k)
        s = yield(o, q) + [o.__all, q.__all, o.__names].inspect
        if turn == 0 && j == 0
          R << s
        elsif R[at + k] != s
          R[at + k] += " but later " + s
          break
        end
        j += 1
      end
      k += 1
    end
  end
end
"##,
    );
    t.push_str(&format!("KINDS = {}\n", KINDS.len()));
    t.push_str(CONSTS);
    t
}

fn ivars(name: &'static str, ops: Vec<Op>, len: usize, runs: usize) -> Space<'static> {
    let n = ops.len();
    Space::new(
        name,
        format!("all sequences of {len} of {n} uses of instance variables in one method body, with {} kinds of objects as receiver: {runs} calls in a row with each kind, then the kinds in turn, compiled on the way", KINDS.len()),
        (n as u64).pow(len as u32 - 1),
        move |i, c| {
            let mut r = Radix(i);
            let mut seq: Vec<&Op> = (1..len).map(|_| &ops[r.take(n)]).collect();
            let mut t = String::from("class Object\n");
            let mut calls = String::new();
            let mut want = vec![];
            for (k, last) in ops.iter().enumerate() {
                seq.push(last);
                t.push_str(&format!("def __c{k}(q)\n"));
                for (j, o) in seq.iter().enumerate() {
                    t.push_str(&format!("  x{j} = begin\n{}\nrescue StandardError => e\n e.class.to_s.to_sym\nend\n", o.0));
                }
                t.push_str(&format!("  [{}].inspect\nend\n", (0..len).map(|j| format!("x{j}")).collect::<Vec<_>>().join(", ")));
                calls.push_str(&format!("__each({runs}) {{ |o, q| o.__c{k}(q) }}\n"));
                for (kind, frozen) in KINDS {
                    let one = Obj { frozen, ..Obj::default() };
                    let mut w = W { o: one.clone(), q: one };
                    let res: Vec<V> = seq.iter().map(|o| (o.1)(&mut w)).collect();
                    let n = w.o.v.iter().flatten().count();
                    let path = seq.iter().map(|o| o.0).collect::<Vec<_>>().join("; ");
                    want.push((format!("{kind}: {path}"), format!("{}{}", show(&List(res)), show(&List(vec![w.o.all(), w.q.all(), Int(n as i64)])))));
                }
                seq.pop();
            }
            run_items(format!("{t}end\nR = []\n{calls}R.join('|').delete(34.chr)\n"), want, c)
        },
    )
}

// ---------------------------------------------------------------------------------------------- constants

/// Where constants live.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum At {
    Top,
    A,
    B,
    M,
    /// a class inside A
    I,
}
use At::*;
const TEXT: [&str; 5] = ["Object", "KA", "KB", "KM", "KA::I"];

#[derive(Clone, Copy, PartialEq, Debug)]
enum Ev {
    Set(At),
    ConstSet(At),
    Remove(At),
    Private(At),
    Public(At),
    /// M goes into A or B
    Include(At),
    Missing(At),
}
use Ev::*;

#[derive(Clone, Default)]
struct Consts {
    /// value and whether it is public
    t: [Option<(u32, bool)>; 5],
    included: [bool; 5],
    missing: [bool; 5],
    /// A had M before B was given it, so B did not get it again
    shared: bool,
    n: u32,
}
/// The value the k-th definition gives.
fn value(k: u32) -> (String, String) {
    match k % 3 {
        0 => (k.to_string(), k.to_string()),
        1 => (format!("{k}.5"), format!("{k}.5")),
        _ => (format!("'s{k}'"), format!("s{k}")),
    }
}
const SITES: [(&str, &str); 22] = [
    ("X at the top", "k_top"),
    ("X in A", "$ka.a_x"),
    ("X in A for an object of B", "$kb.a_x"),
    ("X in B", "$kb.b_x"),
    ("X in M", "KM.m_x"),
    ("X in A::I", "$ki.i_x"),
    ("X in a block in A", "$ka.a_blk"),
    ("X in a class method of B", "KB.cb_x"),
    ("A::X", "k_ax"),
    ("B::X", "k_bx"),
    ("M::X", "k_mx"),
    ("::X", "k_tx"),
    ("A::X and B::X through a variable", "[__k { k_vx(KA) }, __k { k_vx(KB) }]"),
    ("A.const_get", "KA.const_get(:X)"),
    ("B.const_get", "KB.const_get(:X)"),
    ("M.const_get", "KM.const_get(:X)"),
    ("A.const_defined?", "k_cd(KA)"),
    ("B.const_defined?", "k_cd(KB)"),
    ("defined?(X) in B", "$kb.b_def"),
    ("defined?(A::X)", "k_defa"),
    ("B.constants", "KB.constants.include?(:X)"),
    ("A.const_get without inheritance", "KA.const_get(:X, false)"),
];
const CONSTS: &str = r##"
class KA
  def a_x = X
  def a_blk = [1].map { X }[0]
  class I
    def i_x = X
  end
end
class KB < KA
  def b_x = X
  def b_def = defined?(X)
  def self.cb_x = X
end
module KM
  def self.m_x = X
end
def k_top = X
def k_ax = KA::X
def k_bx = KB::X
def k_mx = KM::X
def k_tx = ::X
def k_vx(c) = c::X
def k_cd(c) = c.const_defined?(:X)
def k_defa = defined?(KA::X)
$ka = KA.new
$kb = KB.new
$ki = KA::I.new
def __k
  r = yield
  r.is_a?(String) ? r : r.inspect
rescue NameError
  "NameError"
end
def __kev
  yield
  R << "done"
rescue NameError
  R << "NameError"
end
def __kwatch(n)
  first = nil
  k = 0
  while k < n
    o = __kobs
    if first.nil?
      first = o
    elsif first != o
      i = (0...o.size).find { |j| o[j] != first[j] }
      first[i] = "#{first[i]} but #{o[i]} on look #{k}"
      break
    end
    k += 1
  end
  R.concat(first)
end
def __kloop(x, at)
  i = 0
  out = []
  while i < 150
    yield if i == at
    r = __k { x.b_x }
    out << r if out.last != r
    i += 1
  end
  out
end
class KB
  def in_loop(at)
    i = 0
    out = []
    while i < 150
      yield if i == at
      r = begin
        X
      rescue NameError
        "NameError"
      end
      out << r if out.last != r
      i += 1
    end
    out
  end
end
class CA
  def get = @@x
  def set(v) = (@@x = v)
  def inc = (@@x += 1)
  def orr = (@@x ||= 50)
  def dfd = defined?(@@x)
  def self.cget = @@x
  def blk = [1].map { @@x }[0]
end
class CB < CA
  def bget = @@x
  def bset(v) = (@@x = v)
  def borr = (@@x ||= 60)
  def bdfd = defined?(@@x)
end
module CM
  def mget = @@x
  def self.mset(v) = (@@x = v)
end
class CA
  include CM
end
class CC
  include CM
end
$ca = CA.new
$cb = CB.new
def __c
  yield.inspect
rescue NameError
  "NameError"
rescue RuntimeError
  "RuntimeError"
end
def __cobs
  [__c { $ca.get }, __c { $cb.get }, __c { $cb.bget }, __c { $ca.mget }, __c { $ca.dfd }, __c { $cb.bdfd }, __c { CB.cget }, __c { $cb.blk }, __c { CA.class_variable_get(:@@x) },
   __c { CB.class_variable_get(:@@x) }, __c { CB.class_variable_defined?(:@@x) }, __c { CA.class_variables(false) }, __c { CB.class_variables(false) }, __c { CM.class_variables }]
end
def __cwatch(n)
  first = nil
  k = 0
  while k < n
    o = __cobs
    if first.nil?
      first = o
    elsif first != o
      i = (0...o.size).find { |j| o[j] != first[j] }
      first[i] = "#{first[i]} but #{o[i]} on look #{k}"
      break
    end
    k += 1
  end
  R.concat(first)
end
"##;

impl Consts {
    fn ancestors(&self, at: At) -> Vec<At> {
        let mut v = vec![];
        if at == B {
            v.push(B);
            if self.included[B as usize] && !self.shared {
                v.push(M);
            }
        }
        if at == A || at == B {
            v.push(A);
            if self.included[A as usize] {
                v.push(M);
            }
        }
        if at == I || at == M {
            v.push(at);
        }
        if at != M {
            v.push(Top);
        }
        v
    }
    fn own(&self, at: At) -> Option<(u32, bool)> {
        self.t[at as usize]
    }
    fn miss(&self, at: At) -> String {
        let on = match at {
            M => return "NameError".into(),
            Top => vec![Top],
            A | B => self.ancestors(at).into_iter().filter(|x| *x != M).collect(),
            I => vec![I, Top],
        };
        match on.into_iter().find(|x| self.missing[*x as usize]) {
            Some(x) => format!("missing {}", TEXT[x as usize]),
            None => "NameError".into(),
        }
    }
    fn lexical(&self, scopes: &[At]) -> Result<u32, String> {
        for s in scopes {
            if let Some((v, _)) = self.own(*s) {
                return Ok(v);
            }
        }
        let cref = scopes.first().copied().unwrap_or(Top);
        for x in self.ancestors(cref).into_iter().chain([Top]) {
            if let Some((v, _)) = self.own(x) {
                return Ok(v);
            }
        }
        Result::Err(self.miss(cref))
    }
    /// `A::X`
    fn scoped(&self, at: At) -> Result<u32, String> {
        for x in self.ancestors(at) {
            if x == Top && at != Top {
                continue;
            }
            if let Some((v, public)) = self.own(x) {
                return if public { Ok(v) } else { Result::Err(self.miss(at)) };
            }
        }
        Result::Err(self.miss(at))
    }
    fn get(&self, at: At, inherit: bool) -> Result<u32, String> {
        if !inherit {
            return self.own(at).map(|x| x.0).ok_or_else(|| self.miss(at));
        }
        for x in self.ancestors(at).into_iter().chain([Top]) {
            if let Some((v, _)) = self.own(x) {
                return Ok(v);
            }
        }
        Result::Err(self.miss(at))
    }
    fn observe(&self) -> Vec<String> {
        let s = |r: Result<u32, String>| match r {
            Ok(v) => value(v).1,
            Result::Err(e) => e,
        };
        let b = |x: bool| x.to_string();
        let ax = self.lexical(&[A]);
        let bx = self.lexical(&[B]);
        let seen_from_b = self.ancestors(B).into_iter().filter(|x| *x != Top).find_map(|x| self.own(x));
        vec![
            s(self.lexical(&[])),
            s(ax.clone()),
            s(ax.clone()),
            s(bx.clone()),
            s(self.lexical(&[M])),
            s(self.lexical(&[I, A])),
            s(ax),
            s(bx.clone()),
            s(self.scoped(A)),
            s(self.scoped(B)),
            s(self.scoped(M)),
            s(self.scoped(Top)),
            format!("[{}, {}]", s(self.scoped(A)), s(self.scoped(B))),
            s(self.get(A, true)),
            s(self.get(B, true)),
            s(self.get(M, true)),
            b(self.get(A, true).is_ok()),
            b(self.get(B, true).is_ok()),
            if bx.is_ok() { "constant".into() } else { "nil".into() },
            if self.scoped(A).is_ok() { "constant".into() } else { "nil".into() },
            b(seen_from_b.is_some_and(|x| x.1)),
            s(self.get(A, false)),
        ]
    }
    /// Whether the event is refused with a NameError.
    fn event(&mut self, e: Ev) -> bool {
        self.n += 1;
        match e {
            Set(p) | ConstSet(p) => {
                let public = self.own(p).is_none_or(|x| x.1);
                self.t[p as usize] = Some((self.n, public));
            }
            Remove(p) => return self.t[p as usize].take().is_none(),
            Private(p) | Public(p) => match &mut self.t[p as usize] {
                Some(x) => x.1 = matches!(e, Public(_)),
                None => return true,
            },
            Include(p) => {
                if p == B && self.included[A as usize] && !self.included[B as usize] {
                    self.shared = true;
                }
                self.included[p as usize] = true;
            }
            Missing(p) => self.missing[p as usize] = true,
        }
        false
    }
}
fn text(e: Ev, k: u32) -> String {
    let n = |p: At| TEXT[p as usize];
    match e {
        Set(Top) => format!("eval(\"X = {}\")", value(k).0),
        Set(p) => format!("eval(\"{} {}\\nX = {}\\nend\")", if p == M { "module" } else { "class" }, n(p), value(k).0),
        ConstSet(p) => format!("{}.const_set(:X, {})", n(p), value(k).0),
        Remove(p) => format!("{}.send(:remove_const, :X)", n(p)),
        Private(p) => format!("{}.send(:private_constant, :X)", n(p)),
        Public(p) => format!("{}.send(:public_constant, :X)", n(p)),
        Include(p) => format!("{}.include(KM)", n(p)),
        Missing(p) => format!("def ({}).const_missing(n) = n == :X ? 'missing {}' : super", n(p), n(p)),
    }
}
fn const_starts() -> Vec<(&'static str, Vec<Ev>)> {
    vec![
        ("nothing", vec![]),
        ("at the top", vec![Set(Top)]),
        ("in A", vec![Set(A)]),
        ("in M in A", vec![Set(M), Include(A)]),
        ("everywhere", vec![Set(Top), Set(A), Set(B), Set(M), Set(I)]),
        ("private", vec![Set(Top), Set(A), Private(A)]),
    ]
}
fn const_events() -> Vec<Ev> {
    let mut v = vec![];
    for p in [Top, A, B, M, I] {
        v.extend([Set(p), Remove(p)]);
    }
    v.extend([ConstSet(Top), ConstSet(A), ConstSet(B), Private(A), Private(B), Private(M), Public(A), Include(A), Include(B), Missing(A), Missing(B), Missing(Top)]);
    v
}
fn constants(name: &'static str, evs: Vec<Ev>, len: usize) -> Space<'static> {
    let n = evs.len();
    let starts = const_starts();
    Space::new(
        name,
        format!("all histories of {len} of {n} changes of a constant from {} arrangements, with {} kinds of reading it warm before each change and looked at after it", starts.len(), SITES.len()),
        (n as u64).pow(len as u32) * starts.len() as u64,
        move |i, c| {
            let mut r = Radix(i);
            let (sname, start) = &starts[r.take(starts.len())];
            let mut w = Consts::default();
            let mut t = format!("R = []\ndef __kobs = [{}]\n", SITES.iter().map(|s| format!("__k {{ {} }}", s.1)).collect::<Vec<_>>().join(", "));
            for e in start {
                w.event(*e);
                t.push_str(&format!("{}\n", text(*e, w.n)));
            }
            t.push_str("__kwatch(45)\n");
            let mut path = sname.to_string();
            let mut want = vec![];
            let look = |w: &Consts, path: &str, want: &mut Vec<(String, String)>| {
                for (s, v) in SITES.iter().zip(w.observe()) {
                    want.push((format!("{path}: {}", s.0), v));
                }
            };
            look(&w, &path, &mut want);
            for _ in 0..len {
                let e = evs[r.take(n)];
                path = format!("{path}, {e:?}");
                let refused = w.event(e);
                want.push((path.clone(), if refused { "NameError" } else { "done" }.into()));
                t.push_str(&format!("__kev {{ {} }}\n__kwatch(28)\n", text(e, w.n)));
                look(&w, &path, &mut want);
            }
            t.push_str("R.join('|').delete(34.chr)\n");
            run_items(t, want, c)
        },
    )
}
fn const_running() -> Space<'static> {
    let (starts, evs) = (const_starts(), const_events());
    let n = evs.len();
    Space::new(
        "a constant changed in a running loop",
        format!("each of {n} changes made by a block while a loop that reads the constant runs compiled, from {} arrangements, in a method of B and through a call", starts.len()),
        (n * starts.len()) as u64,
        move |i, c| {
            let mut r = Radix(i);
            let (sname, start) = &starts[r.take(starts.len())];
            let e = evs[r.take(n)];
            for own in [true, false] {
                let mut w = Consts::default();
                let mut t = String::from("R = []\n");
                for e in start {
                    w.event(*e);
                    t.push_str(&format!("{}\n", text(*e, w.n)));
                }
                let see = |w: &Consts| match w.lexical(&[B]) {
                    Ok(v) => value(v).1,
                    Result::Err(e) => e,
                };
                let mut out = vec![see(&w)];
                w.event(e);
                if see(&w) != out[0] {
                    out.push(see(&w));
                }
                let body = format!("begin\n{}\nrescue NameError\nend", text(e, w.n));
                if own {
                    t.push_str(&format!("R << $kb.in_loop(120) {{ {body} }}.inspect\n"));
                } else {
                    t.push_str(&format!("R << __kloop($kb, 120) {{ {body} }}.inspect\n"));
                }
                t.push_str("R.join('|').delete(34.chr)\n");
                run_items(t, vec![(format!("{sname}, {e:?} while {} reads it", if own { "a loop" } else { "a called method" }), format!("[{}]", out.join(", ")))], c)?;
            }
            Ok(())
        },
    )
}

// ---------------------------------------------------------------------------------------- class variables

#[derive(Clone, Copy, PartialEq, Debug)]
enum Cv {
    /// through code in A, B or M
    SetA,
    SetB,
    SetM,
    ClassSet(At),
    Del(At),
    Inc,
    OrA,
    OrB,
}
use Cv::*;
#[derive(Clone, Default)]
struct Cvars {
    /// at Top (which is CC, beside), A, B, M
    t: [Option<i64>; 5],
    n: i64,
}
impl Cvars {
    fn chain(at: At) -> &'static [At] {
        match at {
            B => &[B, A, M],
            A => &[A, M],
            _ => &[M],
        }
    }
    fn find(&self, at: At) -> Result<At, &'static str> {
        let f: Vec<At> = Self::chain(at).iter().copied().filter(|x| self.t[*x as usize].is_some()).collect();
        match (f.first(), f.last()) {
            (Some(a), Some(b)) if a == b => Ok(*a),
            (Some(_), _) => Result::Err("RuntimeError"),
            _ => Result::Err("NameError"),
        }
    }
    fn get(&self, at: At) -> Result<i64, &'static str> {
        self.find(at).map(|x| self.t[x as usize].unwrap())
    }
    fn set(&mut self, at: At, v: i64) -> Result<i64, &'static str> {
        let x = match self.find(at) {
            Ok(x) => x,
            Result::Err("NameError") => at,
            Result::Err(e) => return Result::Err(e),
        };
        self.t[x as usize] = Some(v);
        Ok(v)
    }
    fn defined(&self, at: At) -> bool {
        Self::chain(at).iter().any(|x| self.t[*x as usize].is_some())
    }
    fn event(&mut self, e: Cv) -> Result<i64, &'static str> {
        self.n += 1;
        let n = self.n;
        match e {
            SetA => self.set(A, n),
            SetB => self.set(B, n),
            SetM => self.set(M, n),
            ClassSet(p) => self.set(p, n),
            Del(p) => self.t[p as usize].take().ok_or("NameError"),
            Inc => {
                let v = self.get(A)?;
                self.set(A, v + 1)
            }
            OrA | OrB => {
                let (p, v) = if e == OrA { (A, 50) } else { (B, 60) };
                if self.defined(p) { self.get(p) } else { self.set(p, v) }
            }
        }
    }
    fn observe(&self) -> Vec<String> {
        let s = |r: Result<i64, &'static str>| match r {
            Ok(v) => v.to_string(),
            Result::Err(e) => e.to_string(),
        };
        let d = |x: bool| if x { "class variable".to_string() } else { "nil".into() };
        let l = |x: Option<i64>| if x.is_some() { "[:@@x]".to_string() } else { "[]".into() };
        vec![
            s(self.get(A)),
            s(self.get(A)),
            s(self.get(B)),
            s(self.get(M)),
            d(self.defined(A)),
            d(self.defined(B)),
            s(self.get(A)),
            s(self.get(A)),
            s(self.get(A)),
            s(self.get(B)),
            self.defined(B).to_string(),
            l(self.t[A as usize]),
            l(self.t[B as usize]),
            l(self.t[M as usize]),
        ]
    }
}
const CSITES: [&str; 14] = ["@@x in A", "@@x in A for an object of B", "@@x in B", "@@x in M", "defined? in A", "defined? in B", "@@x in a class method of A for B", "@@x in a block", "A.class_variable_get", "B.class_variable_get", "B.class_variable_defined?", "A.class_variables", "B.class_variables", "M.class_variables"];
fn cvars(len: usize) -> Space<'static> {
    let evs = vec![SetA, SetB, SetM, ClassSet(A), ClassSet(B), ClassSet(M), Del(A), Del(B), Del(M), Inc, OrA, OrB];
    let n = evs.len();
    Space::new(
        "class variables",
        format!("all histories of {len} of {n} changes of a class variable in a class, its subclass and an included module, with {} kinds of reading it warm before and looked at after each", CSITES.len()),
        (n as u64).pow(len as u32),
        move |i, c| {
            let mut r = Radix(i);
            let mut w = Cvars::default();
            let mut t = String::from("R = []\n__cwatch(45)\n");
            let mut want: Vec<(String, String)> = CSITES.iter().zip(w.observe()).map(|(s, v)| (format!("at first: {s}"), v)).collect();
            let mut path = String::new();
            for _ in 0..len {
                let e = evs[r.take(n)];
                path = format!("{path}{e:?}, ");
                let res = w.event(e);
                let k = w.n;
                let name = |p: At| ["CC", "CA", "CB", "CM"][p as usize];
                let code = match e {
                    SetA => format!("$ca.set({k})"),
                    SetB => format!("$cb.bset({k})"),
                    SetM => format!("CM.mset({k})"),
                    ClassSet(p) => format!("{}.class_variable_set(:@@x, {k})", name(p)),
                    Del(p) => format!("{}.remove_class_variable(:@@x)", name(p)),
                    Inc => "$ca.inc".into(),
                    OrA => "$ca.orr".into(),
                    OrB => "$cb.borr".into(),
                };
                t.push_str(&format!("R << __c {{ {code} }}\n__cwatch(28)\n"));
                want.push((path.clone(), match res {
                    Ok(v) => v.to_string(),
                    Result::Err(e) => e.to_string(),
                }));
                want.extend(CSITES.iter().zip(w.observe()).map(|(s, v)| (format!("{path}: {s}"), v)));
            }
            t.push_str("R.join('|').delete(34.chr)\n");
            run_items(t, want, c)
        },
    )
}

pub fn plan(tier: Tier) -> Plan {
    let th = tier == Tier::Thorough;
    let all = ops();
    let few: Vec<Op> = all.iter().copied().enumerate().filter(|(i, _)| th || i % 2 == 0).map(|x| x.1).collect();
    let main = vec![Set(Top), Set(A), Set(B), Set(M), Remove(A), Remove(Top), Remove(B), Private(A), Include(A), Include(B), Missing(A), ConstSet(A)];
    Plan {
        prelude: prelude(),
        rule: "a variable or constant has the value last given to it in the place the rules of the language name, at every stage of compilation".into(),
        spaces: vec![
            ivars("one use of an instance variable", all.clone(), 1, 25),
            ivars("two uses of instance variables", all, 2, 22),
            ivars("three uses of instance variables", few, 3, if th { 22 } else { 1 }),
            constants("a constant changed once", const_events(), 1),
            constants("a constant changed twice", const_events(), 2),
            constants("a constant changed three times", main, if th { 3 } else { 2 }),
            const_running(),
            cvars(if th { 4 } else { 3 }),
        ],
    }
}
