//! Sequences of hash operations against a model: an ordered list of pairs.
use crate::*;
use engine::*;

#[derive(Clone, PartialEq, Debug)]
enum V {
    Nil,
    Int(i64),
    Float(&'static str),
    Sym(&'static str),
    Str(&'static str),
    Bool(bool),
    List(Vec<V>),
    Map(Vec<(V, V)>),
    /// The hash itself.
    Own,
    Err(&'static str),
}
use V::*;

#[derive(Clone, PartialEq, Debug)]
struct H {
    e: Vec<(V, V)>,
    /// What a missing key answers.
    other: V,
}
impl H {
    fn at(&self, k: &V) -> Option<usize> {
        self.e.iter().position(|x| x.0 == *k)
    }
    fn get(&self, k: V) -> V {
        self.at(&k).map_or(self.other.clone(), |i| self.e[i].1.clone())
    }
    fn find(&self, k: V) -> Option<V> {
        self.at(&k).map(|i| self.e[i].1.clone())
    }
    fn set(&mut self, k: V, v: V) {
        match self.at(&k) {
            Some(i) => self.e[i].1 = v,
            None => self.e.push((k, v)),
        }
    }
    fn del(&mut self, k: V) -> Option<V> {
        self.at(&k).map(|i| self.e.remove(i).1)
    }
    fn keep(&mut self, f: impl Fn(&(V, V)) -> bool, always: bool) -> V {
        let n = self.e.len();
        self.e.retain(f);
        if always || n != self.e.len() { Own } else { Nil }
    }
}
fn of(e: Vec<(V, V)>) -> H {
    let mut h = H { e: vec![], other: Nil };
    for (k, v) in e {
        h.set(k, v);
    }
    h
}

fn pair(x: &(V, V)) -> V {
    List(vec![x.0.clone(), x.1.clone()])
}
fn int(v: &V) -> Option<i64> {
    if let Int(i) = v { Some(*i) } else { None }
}
fn odd(k: &V) -> bool {
    int(k).is_some_and(|i| i % 2 == 1)
}
fn text(v: &V, own: &H) -> String {
    match v {
        Nil => "nil".into(),
        Int(i) => i.to_string(),
        Float(s) => s.to_string(),
        Sym(s) => format!(":{s}"),
        Str(s) => s.to_string(),
        Bool(b) => b.to_string(),
        List(v) => format!("[{}]", v.iter().map(|x| text(x, own)).collect::<Vec<_>>().join(", ")),
        Map(e) if e.is_empty() => "{}".into(),
        Map(e) => {
            let one = |(k, v): &(V, V)| match k {
                Sym(s) => format!("{s}: {}", text(v, own)),
                k => format!("{} => {}", text(k, own), text(v, own)),
            };
            format!("{{{}}}", e.iter().map(one).collect::<Vec<_>>().join(", "))
        }
        Own => text(&Map(own.e.clone()), own),
        Err(e) => format!(":{e}"),
    }
}

type Op = (&'static str, fn(&mut H) -> V);

fn ops() -> Vec<Op> {
    vec![
        ("h[1]", |h| h.get(Int(1))),
        ("h[9]", |h| h.get(Int(9))),
        ("h[1.0]", |h| h.get(Float("1.0"))),
        ("h[nil]", |h| h.get(Nil)),
        ("h[\"s\"]", |h| h.get(Str("s"))),
        ("(h[2] = 7)", |h| { h.set(Int(2), Int(7)); Int(7) }),
        ("(h[20] = 7)", |h| { h.set(Int(20), Int(7)); Int(7) }),
        ("(h[nil] = 7)", |h| { h.set(Nil, Int(7)); Int(7) }),
        ("(h[1.0] = 7)", |h| { h.set(Float("1.0"), Int(7)); Int(7) }),
        ("(h[:a] = 7)", |h| { h.set(Sym("a"), Int(7)); Int(7) }),
        ("(k = +\"s\"; h[k] = 7; k << \"x\"; 0)", |h| { h.set(Str("s"), Int(7)); Int(0) }),
        ("h.store([1, 2], nil)", |h| { h.set(List(vec![Int(1), Int(2)]), Nil); Nil }),
        ("(k = [5]; h[k] = 7; k << 6; x = h[[5]]; y = h.key?([5, 6]); h.rehash; [x, y, h[k], h.delete(k)])", |h| { let other = h.other.clone(); List(vec![other, Bool(h.at(&List(vec![Int(5), Int(6)])).is_some()), Int(7), { h.del(List(vec![Int(5), Int(6)])); Int(7) }]) }),
        ("h.delete(1)", |h| h.del(Int(1)).unwrap_or(Nil)),
        ("h.delete(2)", |h| h.del(Int(2)).unwrap_or(Nil)),
        ("h.delete(8)", |h| h.del(Int(8)).unwrap_or(Nil)),
        ("h.delete(:a)", |h| h.del(Sym("a")).unwrap_or(Nil)),
        ("h.delete(99) { |k| k }", |h| h.del(Int(99)).unwrap_or(Int(99))),
        ("h.shift", |h| if h.e.is_empty() { Nil } else { let x = h.e.remove(0); pair(&x) }),
        ("h.key?(2)", |h| Bool(h.at(&Int(2)).is_some())),
        ("h.value?(20)", |h| Bool(h.e.iter().any(|x| x.1 == Int(20)))),
        ("h.key(7)", |h| h.e.iter().find(|x| x.1 == Int(7)).map_or(Nil, |x| x.0.clone())),
        ("h.fetch(3)", |h| h.find(Int(3)).unwrap_or(Err("KeyError"))),
        ("h.fetch(20, 5)", |h| h.find(Int(20)).unwrap_or(Int(5))),
        ("h.fetch(20) { |k| k + 1 }", |h| h.find(Int(20)).unwrap_or(Int(21))),
        ("h.dig(2)", |h| h.get(Int(2))),
        ("h.first", |h| h.e.first().map_or(Nil, pair)),
        ("h.first(2)", |h| List(h.e.iter().take(2).map(pair).collect())),
        ("h.to_a", |h| List(h.e.iter().map(pair).collect())),
        ("h.keys", |h| List(h.e.iter().map(|x| x.0.clone()).collect())),
        ("h.values", |h| List(h.e.iter().map(|x| x.1.clone()).collect())),
        ("h.size", |h| Int(h.e.len() as i64)),
        ("h.empty?", |h| Bool(h.e.is_empty())),
        ("h.clear", |h| { h.e.clear(); Own }),
        ("h.merge({ 2 => 5, 30 => 6 })", |h| { let mut g = h.clone(); g.set(Int(2), Int(5)); g.set(Int(30), Int(6)); Map(g.e) }),
        ("h.merge!({ 2 => 5, 30 => 6, 2.5 => 1 })", |h| { h.set(Int(2), Int(5)); h.set(Int(30), Int(6)); h.set(Float("2.5"), Int(1)); Own }),
        ("h.update({ 2 => 5, 30 => 6 }) { |k, o, n| [k, o, n] }", |h| {
            for (k, n) in [(2, 5), (30, 6)] {
                let v = h.find(Int(k)).map_or(Int(n), |o| List(vec![Int(k), o, Int(n)]));
                h.set(Int(k), v);
            }
            Own
        }),
        ("h.update(h)", |_| Own),
        ("h.replace({ 5 => 6 })", |h| { h.e = vec![(Int(5), Int(6))]; h.other = Nil; Own }),
        ("h.replace(h)", |_| Own),
        ("h.select! { |k, v| k.is_a?(Integer) && k.odd? }", |h| h.keep(|x| odd(&x.0), false)),
        ("h.reject! { |k, v| k.is_a?(Integer) && k.odd? }", |h| h.keep(|x| !odd(&x.0), false)),
        ("h.keep_if { |k, v| k.is_a?(Integer) && k.odd? }", |h| h.keep(|x| odd(&x.0), true)),
        ("h.delete_if { |k, v| k.is_a?(Integer) && k.odd? }", |h| h.keep(|x| !odd(&x.0), true)),
        ("h.select { |k, v| k.is_a?(Integer) && k.odd? }", |h| Map(h.e.iter().filter(|x| odd(&x.0)).cloned().collect())),
        ("h.reject { |k, v| v == 7 }", |h| Map(h.e.iter().filter(|x| x.1 != Int(7)).cloned().collect())),
        ("h.partition { |k, v| v == 7 }", |h| { let (a, b): (Vec<_>, Vec<_>) = h.e.iter().cloned().partition(|x| x.1 == Int(7)); List(vec![List(a.iter().map(pair).collect()), List(b.iter().map(pair).collect())]) }),
        ("h.map { |k, v| [v, k] }", |h| List(h.e.iter().map(|x| List(vec![x.1.clone(), x.0.clone()])).collect())),
        ("h.map { |x| x }", |h| List(h.e.iter().map(pair).collect())),
        ("h.each_with_index.map { |(k, v), i| [i, k] }", |h| List(h.e.iter().enumerate().map(|(i, x)| List(vec![Int(i as i64), x.0.clone()])).collect())),
        ("h.invert", |h| Map(of(h.e.iter().map(|x| (x.1.clone(), x.0.clone())).collect()).e)),
        ("h.any? { |k, v| v == 7 }", |h| Bool(h.e.iter().any(|x| x.1 == Int(7)))),
        ("h.all? { |k, v| v != 7 }", |h| Bool(h.e.iter().all(|x| x.1 != Int(7)))),
        ("h.count { |k, v| v == 7 }", |h| Int(h.e.iter().filter(|x| x.1 == Int(7)).count() as i64)),
        ("h.find { |k, v| v == 7 }", |h| h.e.iter().find(|x| x.1 == Int(7)).map_or(Nil, pair)),
        ("h.transform_values { |v| [v] }", |h| Map(h.e.iter().map(|x| (x.0.clone(), List(vec![x.1.clone()]))).collect())),
        ("h.transform_values! { |v| v == 7 }", |h| { h.e.iter_mut().for_each(|x| x.1 = Bool(x.1 == Int(7))); Own }),
        ("h.transform_keys { |k| [k] }", |h| Map(h.e.iter().map(|x| (List(vec![x.0.clone()]), x.1.clone())).collect())),
        ("h.transform_keys({ 1 => 2 })", |h| Map(of(h.e.iter().map(|x| (if x.0 == Int(1) { Int(2) } else { x.0.clone() }, x.1.clone())).collect()).e)),
        ("h.filter_map { |k, v| k if v == 7 }", |h| List(h.e.iter().filter(|x| x.1 == Int(7) && x.0 != Nil).map(|x| x.0.clone()).collect())),
        ("h.to_h { |k, v| [v, 1] }", |h| Map(of(h.e.iter().map(|x| (x.1.clone(), Int(1))).collect()).e)),
        ("h.slice(2, 99, 1)", |h| Map([2, 99, 1].iter().filter_map(|k| h.find(Int(*k)).map(|v| (Int(*k), v))).collect())),
        ("h.except(2, 99)", |h| Map(h.e.iter().filter(|x| x.0 != Int(2) && x.0 != Int(99)).cloned().collect())),
        ("h.values_at(1, 99, nil)", |h| List(vec![h.get(Int(1)), h.get(Int(99)), h.get(Nil)])),
        ("h.fetch_values(1)", |h| h.find(Int(1)).map_or(Err("KeyError"), |v| List(vec![v]))),
        ("h.compact", |h| Map(h.e.iter().filter(|x| x.1 != Nil).cloned().collect())),
        ("h.compact!", |h| h.keep(|x| x.1 != Nil, false)),
        ("(h.default = 4)", |h| { h.other = Int(4); Int(4) }),
        ("(h.default_proc = proc { |x, k| 4 }; 0)", |h| { h.other = Int(4); Int(0) }),
        ("(h == h.dup)", |_| Bool(true)),
        ("(h == { 1 => 10, 2 => 20 })", |h| Bool(h.e.len() == 2 && h.find(Int(1)) == Some(Int(10)) && h.find(Int(2)) == Some(Int(20)))),
        ("(h.hash == h.to_a.reverse.to_h.hash)", |_| Bool(true)),
        ("h.dup.tap { |g| g[40] = 1; g.delete(1) }", |h| { let mut g = h.clone(); g.set(Int(40), Int(1)); g.del(Int(1)); Map(g.e) }),
        ("h.inject { |x, y| y }", |h| h.e.last().map_or(Nil, pair)),
        ("h.each { |k, v| break [k] if v == 7 }", |h| h.e.iter().find(|x| x.1 == Int(7)).map_or(Own, |x| List(vec![x.0.clone()]))),
        ("h.each { |k, v| h.delete(k) if k.eql?(1) || k.eql?(3) }", |h| h.keep(|x| x.0 != Int(1) && x.0 != Int(3), true)),
        ("h.each { |k, v| h[k] = 7 }", |h| { h.e.iter_mut().for_each(|x| x.1 = Int(7)); Own }),
        ("h.each { |k, v| h[50] = 1 }", |h| if h.e.is_empty() || h.at(&Int(50)).is_some() { if let Some(i) = h.at(&Int(50)) { h.e[i].1 = Int(1) } Own } else { Err("RuntimeError") }),
        ("h.each { |k, v| h.rehash }", |h| if h.e.is_empty() { Own } else { Err("RuntimeError") }),
        ("h.each_key.to_a", |h| List(h.e.iter().map(|x| x.0.clone()).collect())),
        ("h.min_by { |k, v| v == 7 ? 0 : 1 }", |h| h.e.iter().find(|x| x.1 == Int(7)).or(h.e.first()).map_or(Nil, pair)),
        ("h.group_by { |k, v| v == 7 }.keys", |h| { let mut s = vec![]; for x in &h.e { let b = Bool(x.1 == Int(7)); if !s.contains(&b) { s.push(b) } } List(s) }),
        ("{ **h.select { |k, v| k.is_a?(Symbol) }, b: 1 }", |h| { let mut g = of(h.e.iter().filter(|x| matches!(x.0, Sym(_))).cloned().collect()); g.set(Sym("b"), Int(1)); Map(g.e) }),
        ("h.assoc(2)", |h| h.find(Int(2)).map_or(Nil, |v| List(vec![Int(2), v]))),
        ("h.sum { |k, v| 1 }", |h| Int(h.e.len() as i64)),
        ("h.rehash", |_| Own),
        ("h.compare_by_identity.size", |h| Int(h.e.len() as i64)),
    ]
}

const ROUNDS: usize = 4;
const SIZES: [i64; 9] = [0, 1, 2, 3, 7, 8, 9, 10, 16];
const PRELUDE: &str = r##"
SIZES = [0, 1, 2, 3, 7, 8, 9, 10, 16]
def __hash(n)
  h = {}
  i = 0
  while i < n
    i += 1
    h[i] = i * 10
  end
  h
end
def __each
  k = 0
  while k < 4
    SIZES.each_with_index do |n, i|
      d = __hash(n)
      s = yield(d.dup, d)
      if k == 0
        R << s
      elsif R[i - SIZES.size] != s
        R[i - SIZES.size] += " but later " + s
      end
    end
    k += 1
  end
end
"##;

/// A hash compared by identity answers differently for strings, floats and arrays.
fn claimed(seq: &[&Op]) -> bool {
    match seq.iter().position(|o| o.0.contains("identity")) {
        Some(i) => i == seq.len() - 1,
        None => true,
    }
}

fn sequences(name: &'static str, ops: Vec<Op>, len: usize) -> Space<'static> {
    let n = ops.len();
    Space::new(
        name,
        format!("all sequences of {len} of {n} hash operations from hashes of {SIZES:?} entries, each in one method called {ROUNDS} times for every size, so the later calls run compiled"),
        (n as u64).pow(len as u32 - 1),
        move |i, c| {
            let mut r = Radix(i);
            let mut seq: Vec<&Op> = (1..len).map(|_| &ops[r.take(n)]).collect();
            let mut t = String::new();
            let mut calls = String::new();
            let mut want = vec![];
            for (k, last) in ops.iter().enumerate() {
                seq.push(last);
                if claimed(&seq) {
                    t.push_str(&format!("def __c{k}(h, d)\n"));
                    for (j, o) in seq.iter().enumerate() {
                        t.push_str(&format!("  x{j} = begin\n{}\nrescue StandardError => e\n e.class.to_s.to_sym\nend\n", o.0));
                    }
                    t.push_str(&format!("  [{}, h, h[77], d].inspect.delete(34.chr)\nend\n", (0..len).map(|j| format!("x{j}")).collect::<Vec<_>>().join(", ")));
                    calls.push_str(&format!("__each {{ |h, d| __c{k}(h, d) }}\n"));
                    for l in SIZES {
                        let d = H { e: (1..=l).map(|i| (Int(i), Int(i * 10))).collect(), other: Nil };
                        let mut h = d.clone();
                        let mut res: Vec<V> = seq.iter().map(|o| (o.1)(&mut h)).collect();
                        res.extend([Own, h.get(Int(77)), Map(d.e)]);
                        let path = seq.iter().map(|o| o.0).collect::<Vec<_>>().join("; ");
                        want.push((format!("{l} entries: {path}"), text(&List(res), &h)));
                    }
                }
                seq.pop();
            }
            if want.is_empty() {
                return Ok(());
            }
            run_items(format!("{t}R = []\n{calls}R.join('|')\n"), want, c)
        },
    )
}

pub fn plan(tier: Tier) -> Plan {
    let th = tier == Tier::Thorough;
    let all = ops();
    // what adds and takes away
    let movers: Vec<Op> = all
        .iter()
        .filter(|o| ["(h[", "(k = +", ".delete(", ".shift", ".clear", "merge!", "update({", "replace({", "select!", "reject!", "h[k] = 7 }", ".default =", "h.keys", "store"].iter().any(|x| o.0.contains(x)))
        .cloned()
        .collect();
    let few: Vec<Op> = movers.iter().filter(|o| !o.0.contains("nil") && !o.0.contains("8)")).cloned().collect();
    Plan {
        prelude: PRELUDE.to_string(),
        rule: "every hash operation answers and leaves behind what the ordered list of pairs says, and touches no other hash".into(),
        spaces: vec![
            sequences("one operation", all.clone(), 1),
            sequences("two operations", all, 2),
            sequences("three operations", if th { movers } else { few }, 3),
        ],
    }
}
