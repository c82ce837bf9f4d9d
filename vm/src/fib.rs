//! P31: fibers and external enumerators, all short histories against a model of their states.
use crate::*;
use engine::*;

#[derive(Clone, PartialEq, Debug)]
enum V {
    Nil,
    Int(i64),
    Float(f64),
    Sym(&'static str),
    List(Vec<V>),
}
use V::*;
fn show(v: &V) -> String {
    match v {
        Nil => "nil".into(),
        Int(i) => i.to_string(),
        Float(f) => format!("{f:?}"),
        Sym(s) => format!(":{s}"),
        List(v) => format!("[{}]", v.iter().map(show).collect::<Vec<_>>().join(", ")),
    }
}

/// What stands around a yield.
#[derive(Clone, Copy, PartialEq)]
enum Around {
    Nothing,
    Ensure,
    Rescue,
    Both,
}
use Around::*;
#[derive(Clone)]
enum Step {
    /// Yield the value, then note what comes back.
    Yield(V, Around, bool),
    Log(V),
    Other,
    Raise,
    Return,
}
/// A piece of a fiber's body: its text, with N for a number, and its steps.
struct Act(&'static str, fn(i64) -> Vec<Step>);
fn acts() -> Vec<Act> {
    vec![
        Act("s << Fiber.yield(N)", |n| vec![Step::Yield(Int(n), Nothing, true)]),
        Act("begin; s << Fiber.yield(N); ensure; s << :en; end", |n| vec![Step::Yield(Int(n), Ensure, true), Step::Log(Sym("en"))]),
        Act("begin; s << Fiber.yield(N); rescue => e; s << e.message.to_sym; end", |n| vec![Step::Yield(Int(n), Rescue, true)]),
        Act("begin; s << Fiber.yield(N); rescue => e; s << e.message.to_sym; ensure; s << :en; end", |n| vec![Step::Yield(Int(n), Both, true), Step::Log(Sym("en"))]),
        Act("__deep(N, s)", |n| vec![Step::Yield(Int(n), Nothing, true)]),
        Act("i = 0; while i < 2; s << Fiber.yield(N + i); i += 1; end", |n| vec![Step::Yield(Int(n), Nothing, true), Step::Yield(Int(n + 1), Nothing, true)]),
        Act("begin; s << $o[W].resume(7); rescue FiberError; s << :FE; end", |_| vec![Step::Other]),
        Act("raise 'r'", |_| vec![Step::Raise]),
        Act("next :early", |_| vec![Step::Return]),
        Act("x = 1.5 + N; Fiber.yield(x); s << x * 2", |n| vec![Step::Yield(Float(1.5 + n as f64), Nothing, false), Step::Log(Float((1.5 + n as f64) * 2.0))]),
        Act("g = Fiber.new { |a| s << Fiber.yield(a + 1); :g }; s << g.resume(N); s << Fiber.yield(N); s << g.resume(3)", |n| vec![Step::Log(Int(n + 1)), Step::Yield(Int(n), Nothing, true), Step::Log(Int(3)), Step::Log(Sym("g"))]),
        Act("e = [N, 5].each; s << e.next; s << Fiber.yield(N); s << e.next", |n| vec![Step::Log(Int(n)), Step::Yield(Int(n), Nothing, true), Step::Log(Int(5))]),
        Act("a, b = Fiber.yield(N, 4); s << [a, b]", |n| vec![Step::Yield(List(vec![Int(n), Int(4)]), Nothing, false), Step::Log(Nil)]),
    ]
}
#[derive(Clone, Copy, PartialEq)]
enum State {
    New,
    Busy,
    Waiting,
    Dead,
}
#[derive(Clone)]
struct Fib {
    steps: Vec<Step>,
    at: usize,
    state: State,
    log: Vec<V>,
    end: V,
}
/// The error a call ends with.
type Res = Result<V, &'static str>;
struct World {
    f: [Fib; 2],
}
impl World {
    fn resume(&mut self, k: usize, v: V) -> Res {
        match self.f[k].state {
            State::Dead | State::Busy => return Err("FiberError"),
            State::New => self.f[k].log.push(v),
            State::Waiting => {
                let at = self.f[k].at;
                if let Step::Yield(_, _, true) = self.f[k].steps[at - 1] {
                    self.f[k].log.push(v)
                } else if let (Step::Yield(..), Some(Step::Log(Nil))) = (&self.f[k].steps[at - 1], self.f[k].steps.get(at)) {
                    // a, b = what came back
                    self.f[k].log.push(List(vec![v, Nil]));
                    self.f[k].at += 1;
                }
            }
        }
        self.run(k)
    }
    fn run(&mut self, k: usize) -> Res {
        self.f[k].state = State::Busy;
        loop {
            let at = self.f[k].at;
            let Some(s) = self.f[k].steps.get(at).cloned() else {
                self.f[k].state = State::Dead;
                return Ok(self.f[k].end.clone());
            };
            self.f[k].at += 1;
            match s {
                Step::Yield(v, _, _) => {
                    self.f[k].state = State::Waiting;
                    return Ok(v);
                }
                Step::Log(v) => self.f[k].log.push(v),
                Step::Other => match self.resume(1 - k, Int(7)) {
                    Ok(v) => self.f[k].log.push(v),
                    Err("FiberError") => self.f[k].log.push(Sym("FE")),
                    Err(e) => {
                        self.f[k].state = State::Dead;
                        return Err(e);
                    }
                },
                Step::Raise => {
                    self.f[k].state = State::Dead;
                    return Err("RuntimeError");
                }
                Step::Return => {
                    self.f[k].state = State::Dead;
                    return Ok(Sym("early"));
                }
            }
        }
    }
    fn raise(&mut self, k: usize) -> Res {
        if self.f[k].state != State::Waiting {
            return Err("FiberError");
        }
        let Step::Yield(_, around, _) = self.f[k].steps[self.f[k].at - 1] else { unreachable!() };
        match around {
            Rescue | Both => {
                self.f[k].log.push(Sym("k"));
                self.run(k)
            }
            _ => {
                if around == Ensure {
                    self.f[k].log.push(Sym("en"));
                }
                self.f[k].state = State::Dead;
                Err("RuntimeError")
            }
        }
    }
    /// What `kill` answers is not claimed; the repository's tests state that a dead fiber refuses it.
    fn kill(&mut self, k: usize) -> Res {
        if self.f[k].state == State::Dead {
            return Err("FiberError");
        }
        if self.f[k].state == State::Waiting {
            let Step::Yield(_, around, _) = self.f[k].steps[self.f[k].at - 1] else { unreachable!() };
            if matches!(around, Ensure | Both) {
                self.f[k].log.push(Sym("en"));
            }
        }
        self.f[k].state = State::Dead;
        Ok(Sym("ok"))
    }
}
const OPS: [&str; 6] = ["a.resume(1)", "b.resume(2)", "a.raise('k')", "b.raise('k')", "a.kill; :ok", "b.kill; :ok"];

fn fibers(name: &'static str, ab: (usize, usize), len: u32) -> Space<'static> {
    let acts = acts();
    let n = acts.len();
    // bodies of up to that many pieces
    let bodies = |l: usize| -> Vec<Vec<usize>> {
        let mut v: Vec<Vec<usize>> = vec![vec![]];
        let mut last = v.clone();
        for _ in 0..l {
            last = last.iter().flat_map(|b| (0..n).map(move |k| [&b[..], &[k]].concat())).collect();
            v.extend(last.clone());
        }
        v
    };
    let (ba, bb) = (bodies(ab.0), bodies(ab.1));
    Space::new(
        name,
        format!("two fibers with bodies of up to {} and {} of {n} pieces, which may resume one another, raise, rescue and yield from within calls, loops and other fibers; all histories of {len} of resuming, raising in and killing either", ab.0, ab.1),
        (ba.len() * bb.len()) as u64,
        move |i, c| {
            let mut r = Radix(i);
            let (a, b) = (&ba[r.take(ba.len())], &bb[r.take(bb.len())]);
            let text = |b: &[usize], first: i64, other: usize| b.iter().enumerate().map(|(j, k)| acts[*k].0.replace('N', &(first + 10 * j as i64).to_string()).replace('W', &other.to_string())).collect::<Vec<_>>().join("\n");
            let fib = |b: &[usize], first: i64, end: &'static str| Fib { steps: b.iter().enumerate().flat_map(|(j, k)| (acts[*k].1)(first + 10 * j as i64)).collect(), at: 0, state: State::New, log: vec![], end: Sym(end) };
            let mut t = String::new();
            for (m, body, first, other) in [("a", a, 10, 1), ("b", b, 50, 0)] {
                t.push_str(&format!("def __{m}(s)\n  Fiber.new do |x0|\n    s << x0\n{}\n    :end{m}\n  end\nend\n", text(body, first, other)));
            }
            t.push_str("def __op(k, a, b)\n  case k\n");
            for (k, o) in OPS.iter().enumerate() {
                t.push_str(&format!("  when {k}\n    {o}\n"));
            }
            let total = OPS.len().pow(len);
            t.push_str(&format!("  end\nrescue StandardError => e\n  e.class.to_s.to_sym\nend\nR = []\nh = 0\nwhile h < {total}\n  sa = []\n  sb = []\n  a = __a(sa)\n  b = __b(sb)\n  $o = [a, b]\n  x = h\n  r = []\n  {len}.times do\n    r << __op(x % 6, a, b)\n    x /= 6\n  end\n  R << [r, sa, sb, a.alive?, b.alive?].inspect\n  h += 1\nend\nR.join('|')\n"));
            let what = format!("{{ {} }} and {{ {} }}", text(a, 10, 1), text(b, 50, 0)).replace('\n', "; ");
            let mut want = vec![];
            for h in 0..total {
                let mut w = World { f: [fib(a, 10, "enda"), fib(b, 50, "endb")] };
                let mut x = h;
                let mut res = vec![];
                let mut path = vec![];
                for _ in 0..len {
                    let o = x % 6;
                    x /= 6;
                    path.push(OPS[o]);
                    let v = match o {
                        0 => w.resume(0, Int(1)),
                        1 => w.resume(1, Int(2)),
                        2 | 3 => w.raise(o - 2),
                        _ => w.kill(o - 4),
                    };
                    res.push(v.unwrap_or_else(Sym));
                }
                let l = |k: usize| List(w.f[k].log.clone());
                let alive = |k: usize| w.f[k].state != State::Dead;
                want.push((format!("{what}: {}", path.join(", ")), format!("[{}, {}, {}, {}, {}]", show(&List(res)), show(&l(0)), show(&l(1)), alive(0), alive(1))));
            }
            run_items(t, want, c)
        },
    )
}

/// An enumerator: its text, what it gives, and how it ends: a result, an error, or never.
enum End {
    With(&'static str),
    Raises,
    /// a StopIteration raised by the body itself: as an error it lets the enumerator start again
    Again(&'static str),
    Never,
}
use End::*;
fn sources() -> Vec<(&'static str, Vec<&'static str>, End)> {
    vec![
        ("[1, 2, 3].each", vec!["1", "2", "3"], With("[1, 2, 3]")),
        ("[].each", vec![], With("[]")),
        ("(1..3).each", vec!["1", "2", "3"], With("1..3")),
        ("2.times", vec!["0", "1"], With("2")),
        ("1.upto(3)", vec!["1", "2", "3"], With("1")),
        ("3.downto(2)", vec!["3", "2"], With("3")),
        ("[5, 6].each_with_index", vec!["[5, 0]", "[6, 1]"], With("[5, 6]")),
        ("[3, 1].each.with_index(1)", vec!["[3, 1]", "[1, 2]"], With("[3, 1]")),
        ("{ 1 => 2, 3 => 4 }.each", vec!["[1, 2]", "[3, 4]"], With("{1 => 2, 3 => 4}")),
        ("{ 1 => 2 }.each_key", vec!["1"], With("{1 => 2}")),
        ("[1, 2].map", vec!["1", "2"], With("[nil, nil]")),
        ("[1, 2].select", vec!["1", "2"], With("[]")),
        ("[1, 2, 3].each_slice(2)", vec!["[1, 2]", "[3]"], With("[1, 2, 3]")),
        ("[1, 2, 3].each_cons(2)", vec!["[1, 2]", "[2, 3]"], With("[1, 2, 3]")),
        ("'ab'.each_char", vec!["a", "b"], With("ab")),
        ("'ab'.each_byte", vec!["97", "98"], With("ab")),
        ("[1, 2].reverse_each", vec!["2", "1"], With("[1, 2]")),
        ("[1, 2].cycle", vec!["1", "2", "1", "2", "1", "2", "1", "2", "1", "2", "1", "2", "1", "2", "1", "2"], Never),
        ("Enumerator.new { |y| y << 1 << 2; y.yield 3, 4; :fin }", vec!["1", "2", "[3, 4]"], With(":fin")),
        ("Enumerator.new { |y| y << 1; raise 'x' }", vec!["1"], Raises),
        ("Enumerator.new { |y| i = 0; while true; y << i; i += 1; end }", vec!["0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "10", "11", "12", "13", "14"], Never),
        ("Enumerator.new { |y| begin; y << 1; y << 2; ensure; 5; end }", vec!["1", "2"], With("#<y>")),
        ("OBJ.to_enum", vec!["nil", "1", "[1, 2]", "nil", "[1, 2]"], With(":done")),
        ("OBJ.enum_for(:some, 2)", vec!["2", "3"], With(":some")),
        ("Enumerator.new { |y| g = [7, 8].each; y << g.next; y << g.next; :inner }", vec!["7", "8"], With(":inner")),
        ("Enumerator.new { |y| g = [7, 8].each; y << g.next; y << g.next; g.next }", vec!["7", "8"], Again("[7, 8]")),
    ]
}
const EOPS: [&str; 6] = ["e.next", "e.peek", "e.rewind; :ok", "f.next", "e.first(2)", "t = []; x = loop { t << e.next; break :b if t.size > 1 }; [t, x]"];

fn enumerators(len: u32) -> Space<'static> {
    let src = sources();
    Space::new(
        "enumerators",
        format!("two enumerators over each of {} sources; all histories of {len} of next, peek, rewind, internal iteration and loop on one and next on the other", src.len()),
        src.len() as u64,
        move |i, c| {
            let (text, vals, end) = &src[i as usize];
            // `ensure` answers the last value of the body: the yielder itself
            let odd = matches!(end, With("#<y>"));
            let total = EOPS.len().pow(len);
            let mut t = String::from("def OBJ.each\n  yield\n  yield 1\n  yield 1, 2\n  yield nil\n  yield [1, 2]\n  :done\nend\ndef OBJ.some(n)\n  yield n\n  yield n + 1\n  :some\nend\ndef __op(k, e, f)\n  case k\n");
            for (k, o) in EOPS.iter().enumerate() {
                t.push_str(&format!("  when {k}\n    {o}\n"));
            }
            t.push_str(&format!("  end\nrescue StopIteration => e\n  [:stop, e.result]\nrescue StandardError => e\n  e.class.to_s.to_sym\nend\nR = []\nh = 0\nwhile h < {total}\n  e = {text}\n  f = {text}\n  x = h\n  r = []\n  {len}.times do\n    r << __op(x % 6, e, f)\n    x /= 6\n  end\n  R << r.inspect.delete('\"'){}\n  h += 1\nend\nR.join('|')\n", if odd { ".gsub(/#<Enumerator::Yielder[^>]*>/, '#<y>')" } else { "" }));
            let mut want = vec![];
            for h in 0..total {
                // positions; at the end of values that raise, it starts again
                let mut pos = [0usize; 2];
                let step = |p: &mut usize, take: bool| -> Result<String, String> {
                    match vals.get(*p) {
                        Some(v) => {
                            *p += take as usize;
                            Ok(v.to_string())
                        }
                        None => match end {
                            With(r) => Err(r.to_string()),
                            Raises => {
                                *p = 0;
                                Err("!".into())
                            }
                            Again(r) => {
                                *p = 0;
                                Err(r.to_string())
                            }
                            Never => unreachable!(),
                        },
                    }
                };
                let stop = |r: Result<String, String>| match r {
                    Ok(v) => v,
                    Err(e) if e == "!" => ":RuntimeError".into(),
                    Err(e) => format!("[:stop, {e}]"),
                };
                let mut x = h;
                let mut res: Vec<String> = vec![];
                let mut path = vec![];
                for _ in 0..len {
                    let o = x % 6;
                    x /= 6;
                    path.push(EOPS[o]);
                    res.push(match o {
                        0 => stop(step(&mut pos[0], true)),
                        1 => stop(step(&mut pos[0], false)),
                        2 => {
                            pos[0] = 0;
                            ":ok".into()
                        }
                        3 => stop(step(&mut pos[1], true)),
                        4 => {
                            if matches!(end, Raises) {
                                ":RuntimeError".into()
                            } else {
                                format!("[{}]", vals.iter().take(2).copied().collect::<Vec<_>>().join(", "))
                            }
                        }
                        _ => {
                            let mut got = vec![];
                            let mut last = ":b".to_string();
                            let mut failed = false;
                            while got.len() < 2 {
                                match step(&mut pos[0], true) {
                                    Ok(v) => got.push(v),
                                    Err(e) if e == "!" => {
                                        failed = true;
                                        break;
                                    }
                                    Err(e) => {
                                        last = e;
                                        break;
                                    }
                                }
                            }
                            if failed { ":RuntimeError".into() } else { format!("[[{}], {last}]", got.join(", ")) }
                        }
                    });
                }
                want.push((format!("{text}: {}", path.join(", ")), format!("[{}]", res.join(", "))));
            }
            run_items(t, want, c)
        },
    )
}

pub fn plan(tier: Tier) -> Plan {
    let th = tier == Tier::Thorough;
    Plan {
        prelude: "OBJ = Object.new\ndef __deep(n, s)\n  [n].each { |z| s << Fiber.yield(z) }\nend\n".into(),
        rule: "a fiber goes on where it stopped, with what was handed over, and refuses what its state does not allow; an enumerator gives its values in order".into(),
        spaces: vec![
            enumerators(if th { 5 } else { 4 }),
            fibers("one piece each", (1, 1), if th { 5 } else { 4 }),
            fibers("two pieces and one", (2, 1), if th { 4 } else { 3 }),
        ],
    }
}
