//! P25: which method a call reaches. Programs change methods, modules and visibility while call sites are
//! warm; a model of classes, modules and lookup says what every call must answer afterwards.
use crate::*;
use engine::*;

/// Where methods live.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum At {
    Obj,
    A,
    B,
    M,
    N,
    /// the singleton class of `b`
    S,
}
use At::*;
const PLACES: [At; 6] = [Obj, A, B, M, N, S];

#[derive(Clone, Copy, PartialEq, Debug)]
enum Ev {
    /// a method that answers its label
    Def(At),
    /// a method that answers its label and what `super` answers
    Sup(At),
    DefineMethod(At),
    Reader(At),
    Remove(At),
    Undef(At),
    Private(At),
    Public(At),
    /// the included module goes into A, B or `b`
    Include(At),
    /// the prepended module goes in front of A or B
    Prepend(At),
    Alias(At),
    Missing(At),
    RemoveMissing(At),
    /// only the alias goes
    RemoveAlias(At),
}
use Ev::*;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Body {
    Label(At, u32),
    Super(At, u32),
    Ivar,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Entry {
    Method { body: Body, public: bool, home: Home },
    Undefined,
    /// visibility of a method further up
    Again { public: bool },
}
/// An element of a list of ancestors: a module or class and the class whose list it stands in.
type Home = (At, At);

#[derive(Clone, Default)]
struct World {
    f: Vec<(At, Entry)>,
    f2: Vec<(At, Entry)>,
    missing: Vec<At>,
    include: Vec<At>,
    prepend: Vec<At>,
    step: u32,
}
#[derive(Clone, PartialEq, Debug)]
enum Res {
    Val(Vec<String>),
    NoMethod,
}
impl Res {
    fn show(&self) -> String {
        match self {
            Res::Val(v) => format!("[{}]", v.join(", ")),
            Res::NoMethod => "NoMethodError".into(),
        }
    }
}

impl World {
    fn get(t: &[(At, Entry)], at: At) -> Option<Entry> {
        t.iter().find(|x| x.0 == at).map(|x| x.1)
    }
    fn set(t: &mut Vec<(At, Entry)>, at: At, e: Option<Entry>) {
        t.retain(|x| x.0 != at);
        if let Some(e) = e {
            t.push((at, e));
        }
    }
    fn ancestors(&self, of: At) -> Vec<Home> {
        let mut v = vec![];
        let own = |c: At, v: &mut Vec<Home>| {
            if self.prepend.contains(&c) {
                v.push((N, c));
            }
            v.push((c, c));
            if self.include.contains(&c) {
                v.push((M, c));
            }
        };
        match of {
            S => {
                own(S, &mut v);
                own(B, &mut v);
                own(A, &mut v);
            }
            B => {
                own(B, &mut v);
                own(A, &mut v);
            }
            A => own(A, &mut v),
            Obj => {}
            m => v.push((m, m)),
        }
        // modules look methods up in Object for aliases and visibility
        v.push((Obj, Obj));
        v
    }
    /// The method found from position `from` of the list on: where, and with which visibility.
    fn find(&self, t: &[(At, Entry)], list: &[Home], from: usize) -> Option<(usize, Body, bool, Home)> {
        let mut vis = None;
        for (k, h) in list.iter().enumerate().skip(from) {
            match Self::get(t, h.0) {
                None => {}
                Some(Entry::Undefined) => return None,
                Some(Entry::Again { public }) => vis = vis.or(Some(public)),
                Some(Entry::Method { body, public, home }) => {
                    // an alias remembers where the method was found, anything else is where it is found
                    let home = if home.0 == h.0 { *h } else { home };
                    return Some((k, body, vis.unwrap_or(public), home));
                }
            }
        }
        None
    }
    fn missing(&self, list: &[Home]) -> Res {
        match list.iter().find(|h| self.missing.contains(&h.0)) {
            Some(_) => Res::Val(vec![":mm".into()]),
            None => Res::NoMethod,
        }
    }
    fn run(&self, list: &[Home], body: Body, home: Home) -> Res {
        match body {
            Body::Label(a, n) => Res::Val(vec![format!(":{a:?}{n}")]),
            Body::Ivar => Res::Val(vec![":iv".into()]),
            Body::Super(a, n) => {
                let at = list.iter().position(|h| *h == home).unwrap();
                let up = match self.find(&self.f, list, at + 1) {
                    Some((_, b, _, h)) => self.run(list, b, h),
                    None => self.missing(list),
                };
                match up {
                    Res::Val(v) => Res::Val([vec![format!(":{a:?}{n}")], v].concat()),
                    e => e,
                }
            }
        }
    }
    fn call(&self, of: At, alias: bool, explicit: bool) -> Res {
        let list = self.ancestors(of);
        let t = if alias { &self.f2 } else { &self.f };
        match self.find(t, &list, 0) {
            Some((_, b, public, h)) if public || !explicit => self.run(&list, b, h),
            _ => self.missing(&list),
        }
    }
    fn public(&self, of: At) -> bool {
        self.find(&self.f, &self.ancestors(of), 0).is_some_and(|x| x.2)
    }
    /// Cases Ruby's documentation leaves open: a visibility, alias or removal of a name that only a module
    /// in front of the class has, or that only a visibility without a method is left of.
    fn open(&self, e: Ev) -> bool {
        let mut after = self.clone();
        after.event(e);
        if [A, B, S].iter().any(|of| after.strange_alias(*of)) {
            return true;
        }
        let (Private(a) | Public(a) | Alias(a) | Undef(a)) = e else {
            return false;
        };
        let list = self.ancestors(a);
        let front = self.prepend.contains(&a) && Self::get(&self.f, N).is_some();
        front || (list.iter().any(|h| matches!(Self::get(&self.f, h.0), Some(Entry::Again { .. }))) && self.find(&self.f, &list, 0).is_none())
    }
    /// An alias of a method that calls super, when the method has been replaced since, or when a module
    /// stands twice in the list: where super goes on from is left to the implementation here.
    fn strange_alias(&self, of: At) -> bool {
        let list = self.ancestors(of);
        match self.find(&self.f2, &list, 0) {
            Some((_, body @ Body::Super(..), _, home)) => {
                let stands = matches!(Self::get(&self.f, home.0), Some(Entry::Method { body: b, .. }) if b == body);
                !stands || (0..list.len()).any(|i| (0..i).any(|j| list[i].0 == list[j].0))
            }
            _ => false,
        }
    }
    /// The event; whether it is refused with NameError.
    fn event(&mut self, e: Ev) -> bool {
        self.step += 1;
        let n = self.step;
        let method = |body, at| Some(Entry::Method { body, public: true, home: (at, at) });
        match e {
            Def(a) | DefineMethod(a) => Self::set(&mut self.f, a, method(Body::Label(a, n), a)),
            Sup(a) => Self::set(&mut self.f, a, method(Body::Super(a, n), a)),
            Reader(a) => Self::set(&mut self.f, a, method(Body::Ivar, a)),
            Remove(a) => {
                if !matches!(Self::get(&self.f, a), Some(Entry::Method { .. } | Entry::Again { .. })) {
                    return true;
                }
                Self::set(&mut self.f, a, None);
            }
            RemoveAlias(a) => {
                if !matches!(Self::get(&self.f2, a), Some(Entry::Method { .. })) {
                    return true;
                }
                Self::set(&mut self.f2, a, None);
            }
            Undef(a) => {
                if self.find(&self.f, &self.ancestors(a), self.own(a)).is_none() {
                    return true;
                }
                Self::set(&mut self.f, a, Some(Entry::Undefined));
            }
            Private(a) | Public(a) => {
                let list = self.ancestors(a);
                let Some((_, _, was, _)) = self.find(&self.f, &list, 0) else {
                    return true;
                };
                let public = matches!(e, Public(_));
                match Self::get(&self.f, a) {
                    Some(Entry::Method { body, home, .. }) => Self::set(&mut self.f, a, Some(Entry::Method { body, public, home })),
                    Some(Entry::Again { .. }) => Self::set(&mut self.f, a, Some(Entry::Again { public })),
                    _ if was == public => {}
                    _ => Self::set(&mut self.f, a, Some(Entry::Again { public })),
                }
            }
            Include(a) => {
                if !self.ancestors(a).iter().any(|h| h.0 == M) {
                    self.include.push(a);
                }
            }
            Prepend(a) => {
                if !self.prepend.contains(&a) {
                    self.prepend.push(a);
                }
            }
            Alias(a) => {
                let list = self.ancestors(a);
                let Some((_, body, public, home)) = self.find(&self.f, &list, 0) else {
                    return true;
                };
                Self::set(&mut self.f2, a, Some(Entry::Method { body, public, home }));
            }
            Missing(a) => {
                if !self.missing.contains(&a) {
                    self.missing.push(a);
                }
            }
            RemoveMissing(a) => {
                if !self.missing.contains(&a) {
                    return true;
                }
                self.missing.retain(|x| *x != a);
            }
        }
        false
    }
    /// The position of the class itself behind what is prepended to it.
    fn own(&self, a: At) -> usize {
        self.ancestors(a).iter().position(|h| *h == (a, a)).unwrap()
    }
    fn observe(&self) -> Vec<String> {
        let mut v = vec![];
        for of in [A, S] {
            v.push(self.call(of, false, true).show());
            v.push(self.call(of, false, false).show());
            v.push(self.public(of).to_string());
            v.push(self.call(of, false, false).show());
            v.push(self.call(of, false, true).show());
            v.push(if self.public(of) { "method".into() } else { "nil".into() });
            v.push(self.call(of, true, true).show());
            v.push(self.call(of, false, true).show());
        }
        v
    }
}

fn host(a: At) -> &'static str {
    match a {
        Obj => "class Object",
        A => "class A",
        B => "class B",
        M => "module M",
        N => "module N",
        S => "class << $b",
    }
}
fn text(e: Ev, n: u32) -> String {
    let within = |a: At, s: &str| format!("{}; {s}; end", host(a));
    match e {
        Def(a) => within(a, &format!("def f; [:{a:?}{n}]; end")),
        Sup(a) => within(a, &format!("def f; [:{a:?}{n}] + super; end")),
        DefineMethod(a) => within(a, &format!("define_method(:f) {{ [:{a:?}{n}] }}")),
        Reader(a) => within(a, "attr_reader :f"),
        Remove(a) => within(a, "remove_method :f"),
        RemoveAlias(a) => within(a, "remove_method :f2"),
        Undef(a) => within(a, "undef_method :f"),
        Private(a) => within(a, "private :f"),
        Public(a) => within(a, "public :f"),
        Include(S) => "$b.extend M".into(),
        Include(a) => within(a, "include M"),
        Prepend(a) => within(a, "prepend N"),
        Alias(a) => within(a, "alias_method :f2, :f"),
        Missing(a) => within(a, "def method_missing(n, *r); [:mm]; end"),
        RemoveMissing(a) => within(a, "remove_method :method_missing"),
    }
}

const PRELUDE: &str = r##"
module M; end
module N; end
class A
  def initialize; @f = [:iv]; end
  def g; f(); end
end
class B < A; end
$a = A.new
$b = B.new
def s_a(x) = x.f
def s_b(x) = x.f
def s_poly(x) = x.f
def s_g(x) = x.g
def s_resp(x) = x.respond_to?(:f)
def s_send(x) = x.send(:f)
def s_map(x) = [x].map(&:f)[0]
def s_defd(x) = defined?(x.f)
def s_alias(x) = x.f2
def s_blk(x)
  r = nil
  1.times { r = x.f }
  r
end
def __t
  r = yield
  r.is_a?(String) ? r : r.inspect
rescue NoMethodError
  "NoMethodError"
rescue Exception => e
  "#{e.class}: #{e.message}"
end
def __obs
  a = $a
  b = $b
  [__t { s_a(a) }, __t { s_g(a) }, __t { s_resp(a) }, __t { s_send(a) }, __t { s_map(a) }, __t { s_defd(a) }, __t { s_alias(a) }, __t { s_poly(a) },
   __t { s_b(b) }, __t { s_g(b) }, __t { s_resp(b) }, __t { s_send(b) }, __t { s_blk(b) }, __t { s_defd(b) }, __t { s_alias(b) }, __t { s_poly(b) }]
end
R = []
# Look often enough that everything is compiled, and report every change of an answer.
def __watch(n)
  first = nil
  k = 0
  while k < n
    o = __obs
    if first.nil?
      first = o
    elsif first != o
      i = (0...o.size).find { |j| o[j] != first[j] }
      first[i] = "#{first[i]} but #{o[i]} on look #{k}"
      break
    end
    k += 1
  end
  R.concat(first)
end
def __ev
  yield
  R << "done"
rescue NameError => e
  R << e.class.to_s
rescue Exception => e
  R << "#{e.class}: #{e.message}"
end
# The same call in one long-running loop, with the change made in the middle of it.
def __loop_direct(x, from, to)
  i = 0
  out = []
  while i < 160
    yield(i) if i == from || i == to
    r = begin
      x.f
    rescue NoMethodError
      :NoMethodError
    end
    out << r if out.last != r
    i += 1
  end
  out
end
def __loop_self(x, from, to)
  i = 0
  out = []
  while i < 160
    yield(i) if i == from || i == to
    r = begin
      x.g
    rescue NoMethodError
      :NoMethodError
    end
    out << r if out.last != r
    i += 1
  end
  out
end
def __loop_block(x, from, to)
  out = []
  160.times do |i|
    yield(i) if i == from || i == to
    r = begin
      x.f
    rescue NoMethodError
      :NoMethodError
    end
    out << r if out.last != r
  end
  out
end
"##;

const NAMES: [&str; 16] = ["a.f", "a.g", "a.respond_to?", "a.send", "map(&:f) of a", "defined?(a.f)", "a.f2", "a.f beside b.f", "b.f", "b.g", "b.respond_to?", "b.send", "b.f in a block", "defined?(b.f)", "b.f2", "b.f beside a.f"];

fn starts() -> Vec<(&'static str, Vec<Ev>)> {
    vec![
        ("one method", vec![Def(A)]),
        ("overridden", vec![Def(A), Sup(B)]),
        ("module between", vec![Def(A), Def(M), Include(B)]),
        ("chain", vec![Def(Obj), Sup(A), Sup(M), Include(B), Sup(N), Prepend(A), Sup(S)]),
        ("none", vec![]),
        ("prepended", vec![Def(A), Sup(N), Prepend(B), Alias(A)]),
        ("private", vec![Def(A), Private(A), Missing(A)]),
        ("aliased super", vec![Def(Obj), Sup(A), Sup(B), Alias(B)]),
    ]
}
fn events() -> Vec<Ev> {
    let mut v = vec![];
    for p in PLACES {
        v.push(Def(p));
        if p != Obj {
            v.push(Sup(p));
            v.push(Remove(p));
        }
    }
    v.extend([DefineMethod(A), DefineMethod(B), Reader(A), Reader(B), Undef(A), Undef(B), Undef(S), Private(A), Private(B), Private(M), Public(A), Public(B), Include(A), Include(B), Include(S), Prepend(A), Prepend(B), Alias(A), Alias(B), Missing(A), Missing(Obj), RemoveMissing(A), RemoveAlias(A), Remove(Obj)]);
    v
}

/// Histories of events with all answers compared after each.
fn histories(name: &str, starts: Vec<(&'static str, Vec<Ev>)>, evs: Vec<Ev>, len: usize) -> Space<'static> {
    let n = evs.len();
    let per = (n as u64).pow(len as u32);
    Space::new(
        name.to_string(),
        format!("all histories of {len} of {n} changes from {} arrangements of classes and modules, with 16 kinds of calls warm before each change and looked at after it", starts.len()),
        per * starts.len() as u64,
        move |i, c| {
            let mut r = Radix(i);
            let (sname, start) = &starts[r.take(starts.len())];
            let mut w = World::default();
            let mut t = String::new();
            let mut k = 0;
            for e in start {
                k += 1;
                t.push_str(&format!("{}\n", text(*e, k)));
                w.event(*e);
            }
            t.push_str("__watch(45)\n");
            let mut want = vec![];
            let mut path = sname.to_string();
            let look = |w: &World, path: &str, want: &mut Vec<(String, String)>| {
                for (what, v) in NAMES.iter().zip(w.observe()) {
                    want.push((format!("{path}: {what}"), v));
                }
            };
            look(&w, &path, &mut want);
            for _ in 0..len {
                let e = evs[r.take(n)];
                k += 1;
                if w.open(e) {
                    return Ok(());
                }
                let refused = w.event(e);
                path = format!("{path}, {e:?}");
                want.push((path.clone(), if refused { "NameError" } else { "done" }.into()));
                t.push_str(&format!("__ev {{ {} }}\n__watch(28)\n", text(e, k)));
                look(&w, &path, &mut want);
            }
            t.push_str("R.join('|')");
            run_items(t, want, c)
        },
    )
}

/// Changes made in the middle of a loop that is running compiled.
fn running(starts: Vec<(&'static str, Vec<Ev>)>, evs: Vec<Ev>, two: bool) -> Space<'static> {
    let n = evs.len();
    let m = if two { n } else { 1 };
    Space::new(
        if two { "two changes in a running loop" } else { "a change in a running loop" }.to_string(),
        format!("{} changes made by a block while a loop over one call site runs compiled, from {} arrangements, for two objects and three kinds of loop", n * m, starts.len()),
        (n * m * starts.len()) as u64,
        move |i, c| {
            let mut r = Radix(i);
            let (sname, start) = &starts[r.take(starts.len())];
            let (e1, e2) = (evs[r.take(n)], if two { Some(evs[r.take(n)]) } else { None });
            for (lk, l) in ["direct", "self", "block"].iter().enumerate() {
                for (ok, o) in ["$a", "$b"].iter().enumerate() {
                    let mut w = World::default();
                    let mut p = String::new();
                    let mut k = 0;
                    for e in start {
                        k += 1;
                        p.push_str(&format!("{}\n", text(*e, k)));
                        w.event(*e);
                    }
                    let see = |w: &World| match w.call([A, S][ok], false, lk != 1) {
                        Res::Val(v) => format!("[{}]", v.join(", ")),
                        Res::NoMethod => ":NoMethodError".into(),
                    };
                    let mut out = vec![see(&w)];
                    let mut put = |w: &World, out: &mut Vec<String>| {
                        let s = see(w);
                        if out.last() != Some(&s) {
                            out.push(s);
                        }
                    };
                    if w.open(e1) {
                        return Ok(());
                    }
                    w.event(e1);
                    put(&w, &mut out);
                    let mut second = String::new();
                    if let Some(e2) = e2 {
                        if w.open(e2) {
                            return Ok(());
                        }
                        w.event(e2);
                        put(&w, &mut out);
                        second = text(e2, k + 2);
                    }
                    // each loop runs in a process of its own: methods are changed for good
                    let t = format!("{p}R << __loop_{l}({o}, 120, {}) {{ |i|\nbegin\nif i == 120\n{}\nelse\n{second}\nend\nrescue NameError\nend\n}}.inspect\nR.join('|')", if two { "140" } else { "999" }, text(e1, k + 1));
                    let want = vec![(format!("{sname}, {l} loop over {o}.f with {e1:?} {e2:?}"), format!("[{}]", out.join(", ")))];
                    run_items(t, want, c)?;
                }
            }
            Ok(())
        },
    )
}

pub fn plan(tier: Tier) -> Plan {
    let th = tier == Tier::Thorough;
    let st = starts();
    let ev = events();
    let few = vec![Def(A), Def(B), Sup(B), Remove(B), Remove(A), Undef(B), Private(B), Include(B), Prepend(B), Sup(M), Sup(N), Sup(S), Alias(A), Missing(A)];
    Plan {
        prelude: PRELUDE.to_string(),
        rule: "every call reaches the method that lookup along the present ancestors finds, with its visibility, at every stage of compilation".into(),
        spaces: vec![
            histories("one change", st.clone(), ev.clone(), 1),
            running(st.clone(), ev.clone(), false),
            histories("two changes", if th { st.clone() } else { st[1..4].to_vec() }, ev.clone(), 2),
            histories("three changes", if th { st.clone() } else { st[..1].to_vec() }, few.clone(), 3),
            running(if th { st.clone() } else { st[1..3].to_vec() }, if th { ev } else { few }, true),
        ],
    }
}
