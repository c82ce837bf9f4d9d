//! P24: operands. Expressions whose operands read and change one variable, in every order, must see
//! the values the variable had when each operand was evaluated.
use crate::*;
use engine::*;

#[derive(Clone, Copy, PartialEq, Debug)]
struct N {
    v: f64,
    f: bool,
}
fn int(v: i64) -> N {
    N { v: v as f64, f: false }
}
impl N {
    fn show(&self) -> String {
        if self.f { ruby_float(self.v) } else { format!("{}", self.v as i64) }
    }
    fn op(self, o: N, f: fn(f64, f64) -> f64) -> N {
        N { v: f(self.v, o.v), f: self.f || o.f }
    }
    fn neg(self) -> N {
        N { v: -self.v, f: self.f }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Leaf {
    Read,
    Set,
    SetF,
    InBlock,
    Inc,
    Proc,
    Log,
    Lambda,
    Ensure,
    Each,
}
use Leaf::*;
const LEAVES: [Leaf; 10] = [Read, Set, SetF, InBlock, Inc, Proc, Log, Lambda, Ensure, Each];
const FEW: [Leaf; 5] = [Read, SetF, InBlock, Inc, Log];

#[derive(Clone, Debug)]
enum X {
    L(Leaf, i64),
    C(&'static Ctx, Vec<X>),
}
use X::*;

/// A form with operands. In the text, `1` to `4` in braces are the operands, `V` is the variable.
struct Ctx {
    text: &'static str,
    holes: usize,
    /// gives a number
    num: bool,
    /// gives something or nothing that has to do with the number of a call
    eval: fn(&mut M, &[X]) -> String,
    evaln: fn(&mut M, &[X]) -> N,
}
impl std::fmt::Debug for Ctx {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.text)
    }
}

struct M {
    a: N,
    log: Vec<N>,
}

impl M {
    fn n(&mut self, x: &X) -> N {
        match x {
            L(l, k) => match l {
                Read => self.a,
                Set | InBlock | Each => {
                    self.a = int(*k);
                    if *l == Each { int(2) } else { self.a }
                }
                SetF => {
                    self.a = N { v: *k as f64 + 0.5, f: true };
                    self.a
                }
                Inc => {
                    self.a = self.a.op(int(1), |x, y| x + y);
                    self.a
                }
                Proc => {
                    self.a = self.a.op(int(10), |x, y| x + y);
                    self.a
                }
                Log => {
                    self.log.push(int(*k));
                    int(*k)
                }
                Lambda => {
                    let old = self.a;
                    self.a = int(*k);
                    old
                }
                Ensure => {
                    let old = self.a;
                    self.a = old.op(int(3), |x, y| x + y);
                    old
                }
            },
            C(c, v) => (c.evaln)(self, v),
        }
    }
    fn any(&mut self, x: &X) -> String {
        match x {
            L(..) => self.n(x).show(),
            C(c, v) if c.num => (c.evaln)(self, v).show(),
            C(c, v) => (c.eval)(self, v),
        }
    }
    fn all(&mut self, v: &[X]) -> Vec<String> {
        v.iter().map(|x| self.any(x)).collect()
    }
}

fn text(x: &X, var: &str) -> String {
    match x {
        L(l, k) => match l {
            Read => var.into(),
            Set => format!("({var} = {k})"),
            SetF => format!("({var} = {k}.5)"),
            InBlock => format!("bl {{ {var} = {k} }}"),
            Inc => format!("({var} += 1)"),
            Proc => format!("proc {{ {var} += 10 }}.call"),
            Log => format!("e(l, {k})"),
            Lambda => format!("[{var}, ->(z) {{ {var} = z }}.({k})][0]"),
            Ensure => format!("(begin; {var}; ensure; {var} += 3; end)"),
            Each => format!("[0, {k}].each {{ |z| {var} = z }}.size"),
        },
        C(c, v) => {
            let mut s = c.text.replace('V', var);
            for (i, h) in v.iter().enumerate() {
                s = s.replace(&format!("<{}>", i + 1), &text(h, var));
            }
            s
        }
    }
}

fn nan(_: &mut M, _: &[X]) -> N {
    unreachable!()
}
fn nos(_: &mut M, _: &[X]) -> String {
    unreachable!()
}
macro_rules! num {
    ($t:expr, $h:expr, $f:expr) => {
        Ctx { text: $t, holes: $h, num: true, eval: nos, evaln: $f }
    };
}
macro_rules! any {
    ($t:expr, $h:expr, $f:expr) => {
        Ctx { text: $t, holes: $h, num: false, eval: $f, evaln: nan }
    };
}
fn bin(m: &mut M, h: &[X], f: fn(f64, f64) -> f64) -> N {
    let x = m.n(&h[0]);
    let y = m.n(&h[1]);
    x.op(y, f)
}
fn add(m: &mut M, h: &[X]) -> N {
    bin(m, h, |x, y| x + y)
}
fn last(m: &mut M, h: &[X]) -> N {
    let mut r = int(0);
    for x in h {
        r = m.n(x);
    }
    r
}
fn first(m: &mut M, h: &[X]) -> N {
    let r = m.n(&h[0]);
    for x in &h[1..] {
        m.n(x);
    }
    r
}
fn list(m: &mut M, h: &[X]) -> String {
    format!("[{}]", m.all(h).join(", "))
}
fn idx(n: N) -> usize {
    n.v.rem_euclid(3.0).floor() as usize
}

static CTX: &[Ctx] = &[
    num!("(<1> + <2>)", 2, add),
    num!("(<1> - <2>)", 2, |m, h| bin(m, h, |x, y| x - y)),
    num!("(<1> * <2>)", 2, |m, h| bin(m, h, |x, y| x * y)),
    num!("<1>.+(<2>)", 2, add),
    num!("<1>.send(:+, <2>)", 2, add),
    num!("<1>&.-(<2>)", 2, |m, h| bin(m, h, |x, y| x - y)),
    num!("(<1> && <2>)", 2, last),
    num!("(<1> || <2>)", 2, |m, h| m.n(&h[0])),
    num!("(<1> and nil or <2>)", 2, last),
    num!("(<1> ? <2> : <3>)", 3, |m, h| last(m, &h[..2])),
    num!("(<1>; <2>)", 2, last),
    num!("(<2> if <1>)", 2, last),
    num!("((<2> unless <1> == <3>) || 0)", 3, |m, h| {
        let x = m.n(&h[0]);
        let y = m.n(&h[2]);
        if x.v == y.v { int(0) } else { m.n(&h[1]) }
    }),
    num!("(if <1> < <2> then <3> else <4> end)", 4, |m, h| {
        let x = m.n(&h[0]);
        let y = m.n(&h[1]);
        if x.v < y.v { m.n(&h[2]) } else { m.n(&h[3]) }
    }),
    num!("(case <1> when <2> then <3> else <4> end)", 4, |m, h| {
        let x = m.n(&h[0]);
        let y = m.n(&h[1]);
        if x.v == y.v { m.n(&h[2]) } else { m.n(&h[3]) }
    }),
    num!("(begin; <1>; ensure; <2>; end)", 2, first),
    num!("(begin; <1>; raise 'x'; rescue; <2>; end)", 2, last),
    num!("((u = <1>) + <2>)", 2, add),
    num!("(V = <1> + <2>)", 2, |m, h| {
        m.a = add(m, h);
        m.a
    }),
    num!("(V += <1>)", 1, |m, h| {
        let old = m.a;
        let r = m.n(&h[0]);
        m.a = old.op(r, |x, y| x + y);
        m.a
    }),
    num!("(V -= <1>)", 1, |m, h| {
        let old = m.a;
        let r = m.n(&h[0]);
        m.a = old.op(r, |x, y| x - y);
        m.a
    }),
    num!("(V &&= <1>)", 1, |m, h| {
        m.a = m.n(&h[0]);
        m.a
    }),
    num!("(V ||= <1>)", 1, |m, _| m.a),
    num!("bl { <1> }", 1, first),
    num!("->(x) { x + <2> }.(<1>)", 2, add),
    num!("<1>.then { |x| x - <2> }", 2, |m, h| bin(m, h, |x, y| x - y)),
    num!("(while true; <1>; break <2>; end)", 2, last),
    num!("loop { break <1> }", 1, first),
    num!("[<1>, <2>][1]", 2, last),
    num!("[<1>, <2>].first", 2, first),
    num!("id(<1>, <2>)", 2, first),
    num!("(-<1>)", 1, |m, h| m.n(&h[0]).neg()),
    any!("(<1> < <2>)", 2, |m, h| {
        let (x, y) = (m.n(&h[0]), m.n(&h[1]));
        format!("{}", x.v < y.v)
    }),
    any!("(<1> >= <2>)", 2, |m, h| {
        let (x, y) = (m.n(&h[0]), m.n(&h[1]));
        format!("{}", x.v >= y.v)
    }),
    any!("(<1> == <2>)", 2, |m, h| {
        let (x, y) = (m.n(&h[0]), m.n(&h[1]));
        format!("{}", x.v == y.v)
    }),
    any!("(<1> <=> <2>)", 2, |m, h| {
        let (x, y) = (m.n(&h[0]), m.n(&h[1]));
        format!("{}", if x.v < y.v { -1 } else { (x.v > y.v) as i32 })
    }),
    any!("<1>.between?(<2>, <3>)", 3, |m, h| {
        let (x, y, z) = (m.n(&h[0]), m.n(&h[1]), m.n(&h[2]));
        format!("{}", y.v <= x.v && x.v <= z.v)
    }),
    any!("[<1>, <2>]", 2, list),
    any!("[<1>, <2>, <3>]", 3, list),
    any!("[V, *[<1>], V]", 1, |m, h| {
        let x = m.a.show();
        let y = m.any(&h[0]);
        format!("[{x}, {y}, {}]", m.a.show())
    }),
    any!("[*[<1>, <2>], <3>]", 3, list),
    any!("f(<1>, <2>)", 2, list),
    any!("f(<1>, <2>, <3>)", 3, list),
    any!("f(*[<1>], <2>)", 2, list),
    any!("f(<1>, *[<2>], <3>)", 3, list),
    any!("fk(k: <1>, o: <2>)", 2, list),
    any!("fk(**{k: <1>}, o: <2>)", 2, list),
    any!("fk(<1>, o: <2>, k: <3>)", 3, |m, h| {
        let v = m.all(h);
        format!("[{}, {}, {}]", v[0], v[2], v[1])
    }),
    any!("<1>.m2(<2>, <3>)", 3, list),
    any!("f(<1>) { <2> }", 2, |m, h| {
        let x = m.any(&h[0]);
        format!("[{x}]")
    }),
    any!("fb(<1>) { <2> }", 2, list),
    any!("yield(<1>, <2>)", 2, list),
    any!("{<1> => <2>}", 2, |m, h| {
        let v = m.all(h);
        format!("{{{} => {}}}", v[0], v[1])
    }),
    any!("{k: <1>, o: <2>, u: V}", 2, |m, h| {
        let v = m.all(h);
        format!("{{k: {}, o: {}, u: {}}}", v[0], v[1], m.a.show())
    }),
    any!("\"#{<1>} #{<2>}\"", 2, |m, h| m.all(h).join(" ")),
    any!("\"#{V}#{<1>}#{V}\"", 1, |m, h| {
        let x = m.a.show();
        let y = m.any(&h[0]);
        format!("{x}{y}{}", m.a.show())
    }),
    any!("(<1>..<2>).inspect", 2, |m, h| m.all(h).join("..")),
    any!("(u = <1>, <2>)", 2, list),
    any!("(V, x = <1>, <2>; [V, x])", 2, |m, h| {
        let (x, y) = (m.n(&h[0]), m.n(&h[1]));
        m.a = x;
        format!("[{}, {}]", x.show(), y.show())
    }),
    any!("(x, V = <1>, <2>; [x, V])", 2, |m, h| {
        let (x, y) = (m.n(&h[0]), m.n(&h[1]));
        m.a = y;
        format!("[{}, {}]", x.show(), y.show())
    }),
    any!("(x = 7; V, x = x, <1>; [V, x])", 1, |m, h| {
        let y = m.n(&h[0]);
        m.a = int(7);
        format!("[7, {}]", y.show())
    }),
    any!("(x = 7; x, V = V, x; [x, V, <1>])", 1, |m, h| {
        let x = m.a.show();
        m.a = int(7);
        let y = m.any(&h[0]);
        format!("[{x}, 7, {y}]")
    }),
    any!("(x = [7, 8, 9]; x[<1> % 3] = <2>; x)", 2, |m, h| {
        let (i, y) = (m.n(&h[0]), m.n(&h[1]));
        let mut x = vec!["7".to_string(), "8".into(), "9".into()];
        x[idx(i)] = y.show();
        format!("[{}]", x.join(", "))
    }),
    any!("(x = [7, 8, 9]; x[<1> % 3] += <2>; x)", 2, |m, h| {
        let (i, y) = (m.n(&h[0]), m.n(&h[1]));
        let mut x = [int(7), int(8), int(9)];
        x[idx(i)] = x[idx(i)].op(y, |x, y| x + y);
        format!("[{}]", x.map(|n| n.show()).join(", "))
    }),
    any!("(x = {}; x[<1>] ||= <2>; x)", 2, |m, h| {
        let v = m.all(h);
        format!("{{{} => {}}}", v[0], v[1])
    }),
    any!("(x = S.new(5); x.y = <1>; x.y += <2>; x.y)", 2, |m, h| {
        let x = m.n(&h[0]);
        let y = m.n(&h[1]);
        x.op(y, |x, y| x + y).show()
    }),
    any!("(x = [V]; x << <1>; x << V; x)", 1, |m, h| {
        let x = m.a.show();
        let y = m.any(&h[0]);
        format!("[{x}, {y}, {}]", m.a.show())
    }),
    any!("(x, (y, z) = <1>, [<2>, <3>]; [x, y, z])", 3, list),
    any!("(x, *y = <1>, <2>, <3>; [x] + y)", 3, list),
    any!("[1, 2].map { |x| x + <1> }", 1, |m, h| {
        let mut v = vec![];
        for x in [1, 2] {
            v.push(int(x).op(m.n(&h[0]), |x, y| x + y).show());
        }
        format!("[{}]", v.join(", "))
    }),
    any!("(x = V; y = <1>; [x, y, V, x])", 1, |m, h| {
        let x = m.a.show();
        let y = m.any(&h[0]);
        format!("[{x}, {y}, {}, {x}]", m.a.show())
    }),
];

/// Where the variable lives: text of the variable, what comes before and after the expression `R`.
const PLACES: [(&str, &str, &str); 8] = [
    ("local", "a", "R"),
    ("captured local", "a", "q = proc { a }\nq.call\nR"),
    ("local captured later", "a", "x = R\nq = proc { a }\na = q.call\nx"),
    ("local of an outer method", "a", "bl { R }"),
    ("local two blocks out", "a", "bl { bl { R } }"),
    ("instance variable", "@a", "@a = a\nx = R\na = @a\nx"),
    ("global variable", "$a", "$a = a\nx = R\na = $a\nx"),
    ("local in a loop", "a", "i = 0\nw = a\nx = nil\nwhile i < 4\na = w\nl.clear\nx = R\ni += 1\nend\nx"),
];

const PRELUDE: &str = r##"
class Numeric
  def m2(x, y) = [self, x, y]
end
class S
  attr_accessor :y
  def initialize(y) = @y = y
end
def e(l, n)
  l << n
  n
end
def bl = yield
def id(x, _) = x
def f(*r) = r
def fk(*r, k:, o:) = [*r, k, o]
def fb(x)
  y = yield
  [x, y]
end
R = []
INITS = [1] * 3 + [2.5] * 2 + [1] * 22 + [2.5] * 13 + [1] * 4 + [2.5] * 2
# The method with an integer and with a float, often enough to be compiled for one, meet the other,
# and be compiled again.
def __run
  seen = {}
  k = 0
  while k < INITS.size
    a = INITS[k]
    l = []
    s = yield(a, l)
    s = "#{s.inspect} #{l.inspect}"
    if seen[a].nil?
      seen[a] = s
    elsif seen[a] != s
      return ["#{seen[a]} but #{s} on call #{k}"] * 2
    end
    k += 1
  end
  [seen[1], seen[2.5]]
end
"##;

fn expect(x: &X, a: N) -> String {
    let mut m = M { a, log: vec![] };
    let r = m.any(x);
    let log: Vec<String> = m.log.iter().map(|n| n.show()).collect();
    format!("[{r}, {}] [{}]", m.a.show(), log.join(", "))
}

fn space(name: &str, desc: &str, exprs: Vec<X>, places: Vec<usize>, size: usize) -> Space<'static> {
    let chunks = exprs.len().div_ceil(size);
    let n = chunks * places.len();
    let d = format!("{desc}: {} expressions x {} places for the variable, each with an integer and a float, interpreted and compiled", exprs.len(), places.len());
    Space::new(name.to_string(), d, n as u64, move |i, c| {
        let i = i as usize;
        let place = PLACES[places[i % places.len()]];
        let from = i / places.len() * size;
        let part = &exprs[from..(from + size).min(exprs.len())];
        let mut t = String::new();
        let mut want = vec![];
        for (k, x) in part.iter().enumerate() {
            let e = text(x, place.1);
            let body = place.2.replace('R', &e);
            t.push_str(&format!("def f{k}(a, l)\nr = begin\n{body}\nend\n[r, a]\nend\nR.concat(__run {{ |a, l| f{k}(a, l) {{ |x, y| [x, y] }} }})\n"));
            for a in [int(1), N { v: 2.5, f: true }] {
                want.push((format!("{} a={} {e}", place.0, a.show()), expect(x, a)));
            }
        }
        t.push_str("R.join('|').delete('\"')");
        run_items(t, want, c)
    })
}

/// All fillings of the holes of `c` from the lists, one list per hole.
fn fill(c: &'static Ctx, lists: &[Vec<X>]) -> Vec<X> {
    let mut out: Vec<Vec<X>> = vec![vec![]];
    for l in lists {
        out = out.iter().flat_map(|v| l.iter().map(move |x| [v.clone(), vec![x.clone()]].concat())).collect();
    }
    out.into_iter().map(|v| C(c, v)).collect()
}
fn leaves(set: &[Leaf], k: i64) -> Vec<X> {
    set.iter().map(|l| L(*l, k)).collect()
}

pub fn plan(tier: Tier) -> Plan {
    let th = tier == Tier::Thorough;
    let mut flat = vec![];
    for c in CTX {
        let set: &[Leaf] = match c.holes {
            1 | 2 => &LEAVES,
            3 if th => &LEAVES,
            3 => &[Read, SetF, InBlock, Inc, Log, Proc],
            _ => &FEW,
        };
        let lists: Vec<Vec<X>> = (0..c.holes).map(|i| leaves(set, 20 + i as i64)).collect();
        flat.extend(fill(c, &lists));
    }
    // one operand is itself a form
    let mut deep = vec![];
    let inner_set: &[Leaf] = if th { &FEW } else { &[Read, SetF, InBlock] };
    let outer_set: &[Leaf] = if th { &FEW } else { &[Read, InBlock] };
    let inners: Vec<X> = CTX
        .iter()
        .filter(|c| c.num && c.holes <= 2)
        .flat_map(|c| {
            let lists: Vec<Vec<X>> = (0..c.holes).map(|i| leaves(inner_set, 30 + i as i64)).collect();
            fill(c, &lists)
        })
        .collect();
    for c in CTX {
        if c.holes > if th { 3 } else { 2 } {
            continue;
        }
        for at in 0..c.holes {
            let lists: Vec<Vec<X>> = (0..c.holes).map(|i| if i == at { inners.clone() } else { leaves(outer_set, 20 + i as i64) }).collect();
            deep.extend(fill(c, &lists));
        }
    }
    Plan {
        prelude: PRELUDE.to_string(),
        rule: "the value of the expression, the variable after it and the order of calls are those of evaluating the operands from left to right, once each".into(),
        spaces: vec![
            space("flat", "every form with every operand in every hole", flat, (0..PLACES.len()).collect(), 100),
            space("deep", "every form with a form as one of its operands", deep, if th { (0..PLACES.len()).collect() } else { vec![0, 1, 7] }, 100),
        ],
    }
}
