//! Sequences of array operations against a model: a plain vector.
use crate::*;
use engine::*;

#[derive(Clone, PartialEq, Debug)]
enum V {
    Nil,
    Int(i64),
    Bool(bool),
    List(Vec<V>),
    /// The array itself.
    Own,
    Err(&'static str),
}
use V::*;

fn ints(v: &[i64]) -> Vec<V> {
    v.iter().map(|i| Int(*i)).collect()
}
fn opt(v: Option<&V>) -> V {
    v.cloned().unwrap_or(Nil)
}
fn show(v: &V, own: &[V]) -> String {
    match v {
        Nil => "nil".into(),
        Int(i) => i.to_string(),
        Bool(b) => b.to_string(),
        List(v) => format!("[{}]", v.iter().map(|x| show(x, own)).collect::<Vec<_>>().join(", ")),
        Own => show(&List(own.to_vec()), own),
        Err(e) => format!(":{e}"),
    }
}

/// An index expression between the brackets.
#[derive(Clone, Copy, Debug)]
enum Ix {
    At(i64),
    Span(i64, i64),
    /// First, last (None: open), last one left out.
    Range(Option<i64>, Option<i64>, bool),
}
use Ix::*;
impl Ix {
    fn text(self) -> String {
        match self {
            At(i) => i.to_string(),
            Span(i, n) => format!("{i}, {n}"),
            Range(a, b, x) => {
                let s = |v: Option<i64>| v.map_or(String::new(), |v| v.to_string());
                format!("({}{}{})", s(a), if x { "..." } else { ".." }, s(b))
            }
        }
    }
    /// Start and length within an array of `len` elements, before clipping at its end.
    fn span(self, len: i64) -> Option<(i64, i64)> {
        let (s, n) = match self {
            At(i) => (i, 1),
            Span(i, n) => (i, n),
            Range(a, b, x) => {
                let a = a.unwrap_or(0);
                let s = if a < 0 { a + len } else { a };
                let e = match b {
                    None => len,
                    Some(b) => (if b < 0 { b + len } else { b }) + if x { 0 } else { 1 },
                };
                if s < 0 {
                    return None;
                }
                return Some((s, (e - s).max(0)));
            }
        };
        let s = if s < 0 { s + len } else { s };
        if s < 0 || n < 0 { None } else { Some((s, n)) }
    }
    fn get(self, a: &[V]) -> V {
        let len = a.len() as i64;
        match (self, self.span(len)) {
            (_, None) => Nil,
            (At(_), Some((s, _))) => opt(a.get(s as usize)),
            (_, Some((s, _))) if s > len => Nil,
            (_, Some((s, n))) => List(a[s as usize..(s + n).min(len) as usize].to_vec()),
        }
    }
    fn set(self, a: &mut Vec<V>, v: &[V]) -> Option<&'static str> {
        let len = a.len() as i64;
        let Some((s, n)) = self.span(len) else {
            return Some(if matches!(self, Range(..)) { "RangeError" } else { "IndexError" });
        };
        while (a.len() as i64) < s {
            a.push(Nil);
        }
        let e = (s + n).min(a.len() as i64).max(s);
        a.splice(s as usize..e as usize, v.iter().cloned());
        None
    }
}

#[derive(Clone, Debug)]
enum Op {
    Get(Ix),
    Set(Ix, Vec<i64>),
    Slice(Ix),
    Insert(i64, Vec<i64>),
    Fill(Option<Ix>),
    /// A fixed text with its meaning.
    Fun(&'static str, fn(&mut Vec<V>) -> V),
}

fn int(v: &V) -> Option<i64> {
    if let Int(i) = v { Some(*i) } else { None }
}
/// The elements in order, unless they cannot be compared.
fn sorted(a: &[V]) -> Result<Vec<V>, V> {
    if a.iter().all(|x| *x == Nil) {
        return Ok(a.to_vec());
    }
    let mut v: Vec<i64> = a.iter().map(|x| int(x).ok_or(Err("ArgumentError"))).collect::<Result<_, _>>()?;
    v.sort();
    Ok(ints(&v))
}
fn uniq(a: &[V]) -> Vec<V> {
    let mut v: Vec<V> = vec![];
    for x in a {
        if !v.contains(x) {
            v.push(x.clone());
        }
    }
    v
}
fn big(x: &V) -> bool {
    int(x).is_some_and(|i| i > 2)
}
/// Keep the elements, and answer the array if any went.
fn keep(a: &mut Vec<V>, f: impl Fn(&V) -> bool, always: bool) -> V {
    let n = a.len();
    a.retain(f);
    if always || n != a.len() { Own } else { Nil }
}

impl Op {
    fn text(&self) -> String {
        let list = |v: &[i64]| format!("[{}]", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(", "));
        match self {
            Op::Get(i) => format!("a[{}]", i.text()),
            Op::Set(At(i), v) => format!("(a[{i}] = {})", v[0]),
            Op::Set(i, v) if v.len() == 1 && v[0] == 6 => format!("(a[{}] = 6)", i.text()),
            Op::Set(i, v) => format!("(a[{}] = {})", i.text(), list(v)),
            Op::Slice(i) => format!("a.slice!({})", i.text()),
            Op::Insert(i, v) => format!("a.insert({i}, {})", list(v).trim_matches(['[', ']'])),
            Op::Fill(None) => "a.fill(9)".into(),
            Op::Fill(Some(At(i))) => format!("a.fill(9, {i})"),
            Op::Fill(Some(i)) => format!("a.fill(9, {})", i.text()),
            Op::Fun(t, _) => t.to_string(),
        }
    }
    fn run(&self, a: &mut Vec<V>) -> V {
        match self {
            Op::Get(i) => i.get(a),
            Op::Set(i, v) => match i.set(a, &ints(v)) {
                Some(e) => Err(e),
                None if matches!(i, At(_)) || (v.len() == 1 && v[0] == 6) => Int(v[0]),
                None => List(ints(v)),
            },
            Op::Slice(i) => {
                let r = i.get(a);
                if let Some((s, n)) = i.span(a.len() as i64) {
                    let len = a.len() as i64;
                    if s < len {
                        a.drain(s as usize..(s + n).min(len) as usize);
                    }
                }
                r
            }
            Op::Insert(i, v) => {
                let len = a.len() as i64;
                let at = if *i < 0 { i + len + 1 } else { *i };
                if at < 0 {
                    return Err("IndexError");
                }
                match Span(at, 0).set(a, &ints(v)) {
                    Some(e) => Err(e),
                    None => Own,
                }
            }
            Op::Fill(None) => {
                a.iter_mut().for_each(|x| *x = Int(9));
                Own
            }
            Op::Fill(Some(i)) => {
                let len = a.len() as i64;
                let (s, n) = match *i {
                    At(i) => {
                        let s = if i < 0 { (i + len).max(0) } else { i };
                        (s, (len - s).max(0))
                    }
                    Span(i, n) => (if i < 0 { (i + len).max(0) } else { i }, n.max(0)),
                    r => match r.span(len) {
                        Some(x) => x,
                        None => return Err("RangeError"),
                    },
                };
                if n > 0 {
                    Span(s, n).set(a, &vec![Int(9); n as usize]);
                }
                Own
            }
            Op::Fun(_, f) => f(a),
        }
    }
}

fn ops() -> Vec<Op> {
    use Op::*;
    let r = |a, b, x| Range(a, b, x);
    let mut v = vec![];
    for i in [-6, -1, 0, 1, 4, 5, 8] {
        v.push(Get(At(i)));
    }
    for i in [Span(0, 2), Span(2, 3), Span(-2, 5), Span(6, 1), Span(1, 0), Span(3, -1), Span(5, 9)] {
        v.push(Get(i));
    }
    for i in [r(Some(1), Some(3), false), r(Some(2), None, false), r(None, Some(2), true), r(Some(-2), Some(-1), false), r(Some(1), Some(-1), true), r(Some(5), Some(9), false), r(Some(3), Some(1), false)] {
        v.push(Get(i));
    }
    for i in [0, 2, 5, -1, -4, 8] {
        v.push(Set(At(i), vec![9]));
    }
    v.extend([
        Set(Span(1, 2), vec![7, 8, 9]),
        Set(Span(0, 0), vec![7]),
        Set(Span(2, 1), vec![]),
        Set(Span(3, 4), vec![6]),
        Set(Span(6, 2), vec![7, 8]),
        Set(Span(-2, 1), vec![7, 8, 9]),
        Set(Span(1, -1), vec![7, 8]),
        Set(r(Some(1), Some(2), false), vec![7]),
        Set(r(Some(3), None, false), vec![7, 8, 9]),
        Set(r(Some(-3), Some(-2), false), vec![]),
        Set(r(None, Some(2), true), vec![6]),
        Set(r(Some(4), Some(1), false), vec![7, 8]),
        Slice(At(1)),
        Slice(At(-1)),
        Slice(Span(1, 2)),
        Slice(Span(4, 9)),
        Slice(Span(0, 5)),
        Slice(r(Some(-3), Some(-2), false)),
        Slice(r(Some(2), None, false)),
        Insert(2, vec![9]),
        Insert(-2, vec![9]),
        Insert(6, vec![7, 8]),
        Insert(0, vec![7, 8, 9]),
        Insert(-1, vec![7, 8]),
        Fill(None),
        Fill(Some(At(2))),
        Fill(Some(At(-3))),
        Fill(Some(Span(1, 5))),
        Fill(Some(r(Some(3), Some(4), false))),
        Fill(Some(r(Some(6), Some(7), true))),
    ]);
    let f: Vec<(&'static str, fn(&mut Vec<V>) -> V)> = vec![
        ("a.push(9)", |a| { a.push(Int(9)); Own }),
        ("(a << 9)", |a| { a.push(Int(9)); Own }),
        ("a.push(7, 8, 9)", |a| { a.extend(ints(&[7, 8, 9])); Own }),
        ("a.push", |_| Own),
        ("a.pop", |a| a.pop().unwrap_or(Nil)),
        ("a.pop(3)", |a| List(a.split_off(a.len().saturating_sub(3)))),
        ("a.shift", |a| if a.is_empty() { Nil } else { a.remove(0) }),
        ("a.shift(2)", |a| { let n = a.len().min(2); List(a.drain(..n).collect()) }),
        ("a.unshift(9)", |a| { a.insert(0, Int(9)); Own }),
        ("a.unshift(7, 8, 9)", |a| { a.splice(0..0, ints(&[7, 8, 9])); Own }),
        ("a.concat([7, 8])", |a| { a.extend(ints(&[7, 8])); Own }),
        ("a.concat(a)", |a| { let b = a.clone(); a.extend(b); Own }),
        ("a.concat(a, [5], a)", |a| { let b = a.clone(); a.extend(b.clone()); a.push(Int(5)); a.extend(b); Own }),
        ("a.delete_at(1)", |a| if a.len() > 1 { a.remove(1) } else { Nil }),
        ("a.delete_at(-2)", |a| if a.len() > 1 { let n = a.len() - 2; a.remove(n) } else { Nil }),
        ("a.delete(2)", |a| if keep(a, |x| *x != Int(2), false) == Own { Int(2) } else { Nil }),
        ("a.delete(9) { :no }", |a| if keep(a, |x| *x != Int(9), false) == Own { Int(9) } else { Err("no") }),
        ("a.clear", |a| { a.clear(); Own }),
        ("a.compact!", |a| keep(a, |x| *x != Nil, false)),
        ("a.compact", |a| { let mut b = a.clone(); keep(&mut b, |x| *x != Nil, true); List(b) }),
        ("a.reverse!", |a| { a.reverse(); Own }),
        ("a.reverse", |a| List(a.iter().rev().cloned().collect())),
        ("a.rotate!(2)", |a| { if !a.is_empty() { let n = 2 % a.len(); a.rotate_left(n); } Own }),
        ("a.rotate(-1)", |a| { let mut b = a.clone(); if !b.is_empty() { b.rotate_right(1); } List(b) }),
        ("a.fill { |i| i * i }", |a| { for (i, x) in a.iter_mut().enumerate() { *x = Int((i * i) as i64); } Own }),
        ("a.first", |a| opt(a.first())),
        ("a.last", |a| opt(a.last())),
        ("a.first(2)", |a| List(a[..a.len().min(2)].to_vec())),
        ("a.last(3)", |a| List(a[a.len().saturating_sub(3)..].to_vec())),
        ("a.take(6)", |a| List(a[..a.len().min(6)].to_vec())),
        ("a.drop(3)", |a| List(a[a.len().min(3)..].to_vec())),
        ("a.take_while { |x| x && x < 4 }", |a| List(a.iter().take_while(|x| int(x).is_some_and(|i| i < 4)).cloned().collect())),
        ("a.drop_while { |x| x && x < 4 }", |a| List(a.iter().skip_while(|x| int(x).is_some_and(|i| i < 4)).cloned().collect())),
        ("a.map! { |x| x && x + 1 }", |a| { a.iter_mut().for_each(|x| if let Int(i) = x { *i += 1 }); Own }),
        ("a.map { |x| x.nil? }", |a| List(a.iter().map(|x| Bool(*x == Nil)).collect())),
        ("a.select! { |x| x && x > 2 }", |a| keep(a, big, false)),
        ("a.reject! { |x| x && x > 2 }", |a| keep(a, |x| !big(x), false)),
        ("a.keep_if { |x| x && x > 2 }", |a| keep(a, big, true)),
        ("a.delete_if { |x| x && x > 2 }", |a| keep(a, |x| !big(x), true)),
        ("a.partition { |x| x && x > 2 }", |a| { let (p, q): (Vec<V>, Vec<V>) = a.iter().cloned().partition(big); List(vec![List(p), List(q)]) }),
        ("a.uniq!", |a| { let u = uniq(a); if u.len() == a.len() { Nil } else { *a = u; Own } }),
        ("a.uniq", |a| List(uniq(a))),
        ("a.sort!", |a| match sorted(a) { Ok(s) => { *a = s; Own } Result::Err(e) => e }),
        ("a.sort", |a| match sorted(a) { Ok(s) => List(s), Result::Err(e) => e }),
        ("a.min", |a| match sorted(a) { Ok(s) => opt(s.first()), Result::Err(e) => e }),
        ("a.max", |a| match sorted(a) { Ok(s) => opt(s.last()), Result::Err(e) => e }),
        ("a.sum", |a| a.iter().map(int).sum::<Option<i64>>().map_or(Err("TypeError"), Int)),
        ("(a + a)", |a| List([&a[..], &a[..]].concat())),
        ("(a * 3)", |a| List([&a[..], &a[..], &a[..]].concat())),
        ("(a - [2, 9])", |a| List(a.iter().filter(|x| **x != Int(2) && **x != Int(9)).cloned().collect())),
        ("(a & [2, 9, 1])", |a| List(uniq(a).into_iter().filter(|x| ints(&[2, 9, 1]).contains(x)).collect())),
        ("(a | [9, 2, 11])", |a| List(uniq(&[&a[..], &ints(&[9, 2, 11])].concat()))),
        ("(a == [1, 2, 3])", |a| Bool(*a == ints(&[1, 2, 3]))),
        ("(a == a.dup)", |_| Bool(true)),
        ("a.replace([7, 8, 9, 6, 5, 4, 3])", |a| { *a = ints(&[7, 8, 9, 6, 5, 4, 3]); Own }),
        ("a.replace([7])", |a| { *a = ints(&[7]); Own }),
        ("a.dup.push(9)", |a| { let mut b = a.clone(); b.push(Int(9)); List(b) }),
        ("a.index(3)", |a| a.iter().position(|x| *x == Int(3)).map_or(Nil, |i| Int(i as i64))),
        ("a.rindex(9)", |a| a.iter().rposition(|x| *x == Int(9)).map_or(Nil, |i| Int(i as i64))),
        ("a.include?(nil)", |a| Bool(a.contains(&Nil))),
        ("a.count(9)", |a| Int(a.iter().filter(|x| **x == Int(9)).count() as i64)),
        ("a.size", |a| Int(a.len() as i64)),
        ("a.empty?", |a| Bool(a.is_empty())),
        ("a.each_slice(2).to_a", |a| List(a.chunks(2).map(|c| List(c.to_vec())).collect())),
        ("a.each_cons(3).to_a", |a| List(a.windows(3).map(|c| List(c.to_vec())).collect())),
        ("a.zip([5, 6])", |a| List(a.iter().enumerate().map(|(i, x)| List(vec![x.clone(), opt(ints(&[5, 6]).get(i))])).collect())),
        ("a.values_at(0, -1, 9)", |a| List(vec![opt(a.first()), opt(a.last()), opt(a.get(9))])),
        ("a.fetch(4)", |a| a.get(4).cloned().unwrap_or(Err("IndexError"))),
        ("a.fetch(-7) { |i| i }", |a| if a.len() >= 7 { a[a.len() - 7].clone() } else { Int(-7) }),
        ("a.dig(1)", |a| opt(a.get(1))),
        ("a.any?", |a| Bool(a.iter().any(|x| *x != Nil))),
        ("a.all? { |x| x && x < 8 }", |a| Bool(a.iter().all(|x| int(x).is_some_and(|i| i < 8)))),
        ("a.none?", |a| Bool(a.iter().all(|x| *x == Nil))),
        ("a.each_with_index.map { |x, i| [i, x] }", |a| List(a.iter().enumerate().map(|(i, x)| List(vec![Int(i as i64), x.clone()])).collect())),
        ("[a, a].flatten", |a| List([&a[..], &a[..]].concat())),
        ("a.combination(2).to_a.size", |a| { let n = a.len() as i64; Int(n * (n - 1) / 2) }),
        ("[*a, 5, *a]", |a| List([&a[..], &[Int(5)], &a[..]].concat())),
        ("(b, *c = a; [b, c])", |a| List(vec![opt(a.first()), List(a.get(1..).unwrap_or(&[]).to_vec())])),
        ("(*b, c = a; [b, c])", |a| List(vec![List(a[..a.len().saturating_sub(1)].to_vec()), opt(a.last())])),
        ("a.inject { |x, y| y }", |a| opt(a.last())),
        ("a.reverse_each.to_a", |a| List(a.iter().rev().cloned().collect())),
        ("a.each { |x| break [x] if x && x > 3 }", |a| a.iter().find(|x| int(x).is_some_and(|i| i > 3)).map_or(Own, |x| List(vec![x.clone()]))),
        ("a.first(-1)", |_| Err("ArgumentError")),
        ("a.minmax", |a| match sorted(a) { Ok(s) => List(vec![opt(s.first()), opt(s.last())]), Result::Err(e) => e }),
    ];
    v.extend(f.into_iter().map(|(t, f)| Fun(t, f)));
    v
}

const PRELUDE: &str = r##"
def __ary(n)
  a = []
  i = 0
  while i < n
    i += 1
    a << i
  end
  a
end
"##;
/// Rounds of all lengths: the later ones run compiled.
const ROUNDS: usize = 6;

/// All sequences of `len` of the operations from every length up to `max`.
fn sequences(name: &'static str, ops: Vec<Op>, len: usize, max: usize) -> Space<'static> {
    let n = ops.len();
    Space::new(
        name,
        format!("all sequences of {len} of {n} array operations from arrays of 0 to {max} elements, each in one method called {ROUNDS} times for every length, so the later calls run compiled"),
        (n as u64).pow(len as u32 - 1),
        move |i, c| {
            let mut r = Radix(i);
            let mut seq: Vec<&Op> = (1..len).map(|_| &ops[r.take(n)]).collect();
            let mut t = String::from("R = [] if true\n");
            let mut want = vec![];
            for (k, last) in ops.iter().enumerate() {
                seq.push(last);
                t.push_str(&format!("def __c{k}(a, d)\n"));
                for (j, o) in seq.iter().enumerate() {
                    t.push_str(&format!("  x{j} = begin\n{}\nrescue StandardError => e\n e.class.to_s.to_sym\nend\n", o.text()));
                }
                t.push_str(&format!("  [{}, a, d].inspect\nend\n", (0..len).map(|j| format!("x{j}")).collect::<Vec<_>>().join(", ")));
                for l in 0..=max {
                    let d: Vec<V> = (1..=l as i64).map(Int).collect();
                    let mut a = d.clone();
                    let mut res: Vec<V> = seq.iter().map(|o| o.run(&mut a)).collect();
                    res.extend([Own, List(d)]);
                    let path = seq.iter().map(|o| o.text()).collect::<Vec<_>>().join("; ");
                    want.push((format!("{l} elements: {path}"), show(&List(res), &a)));
                }
                seq.pop();
            }
            t = t.replace("R = [] if true\n", "");
            t.push_str("R = []\n");
            for k in 0..n {
                t.push_str(&format!("__each({max}) {{ |a, d| __c{k}(a, d) }}\n"));
            }
            t.push_str("R.join('|')\n");
            run_items(t, want, c)
        },
    )
}

/// Every index at one compiled place, which sees all lengths and kinds of index.
fn indexing(name: &'static str, warm: &'static [&'static str]) -> Space<'static> {
    const KINDS: [&str; 5] = ["a[i]", "a[i] = 9", "a[i, 2]", "a[i, 2] = 9", "a.at(i)"];
    let n = KINDS.len() as u64 * warm.len() as u64;
    Space::new(name, "reading and writing at every index from -10 to 10, given as an integer or a float, of arrays of 0 to 8 elements, at one place of the program that was compiled for one kind of use before".to_string(), n, move |i, c| {
        let mut r = Radix(i);
        let kind = KINDS[r.take(KINDS.len())];
        let before = warm[r.take(warm.len())];
        let mut t = format!("def __s(a, i)\n{kind}\nrescue StandardError => e\ne.class.to_s.to_sym\nend\n60.times {{ {before} }}\nR = []\n");
        let mut want = vec![];
        for l in 0..=8i64 {
            for i in -10..=10i64 {
                for float in [false, true] {
                    let text = if float { format!("{}.5", i) } else { i.to_string() };
                    t.push_str(&format!("a = __ary({l})\nR << [__s(a, {text}), a].inspect\n"));
                    let mut a: Vec<V> = (1..=l).map(Int).collect();
                    let res = match kind {
                        "a[i] = 9" => match At(i).set(&mut a, &[Int(9)]) {
                            None => Int(9),
                            Some(e) => Err(e),
                        },
                        "a[i, 2] = 9" => match Span(i, 2).set(&mut a, &[Int(9)]) {
                            None => Int(9),
                            Some(e) => Err(e),
                        },
                        "a[i, 2]" => Span(i, 2).get(&a),
                        _ => At(i).get(&a),
                    };
                    want.push((format!("{kind} with i = {text} of {l} elements after 60 times {before}"), show(&List(vec![res, Own]), &a)));
                }
            }
        }
        t.push_str("R.join('|')\n");
        run_items(t, want, c)
    })
}
/// Iteration over an array that the block changes once.
fn changing(ops: Vec<Op>) -> Space<'static> {
    const WAYS: [&str; 9] = ["a.each { |x| Y }", "a.each_index { |i| x = a[i]; Y }", "a.each_with_index { |x, i| Y }", "a.map { |x| Y; x }", "a.select { |x| Y; true }", "a.any? { |x| Y; false }", "a.find { |x| Y; false }", "a.each_with_object([]) { |x, o| Y; o << x }", "a.reverse_each { |x| Y }"];
    let n = ops.len();
    Space::new(
        "changed while iterated",
        format!("{} ways of iterating over an array of 0 to 7 elements, whose block makes one of {n} changes when it has seen 1 to 3 of them, {ROUNDS} times over", WAYS.len()),
        WAYS.len() as u64 * 3,
        move |i, c| {
            let mut r = Radix(i);
            let way = WAYS[r.take(WAYS.len())];
            let when = r.take(3) + 1;
            let mut t = String::new();
            let mut want = vec![];
            for (k, o) in ops.iter().enumerate() {
                let y = format!("s << x; ({} if s.size == {when}); (break :far if s.size > 30)", o.text());
                t.push_str(&format!("def __c{k}(a, d)\n  s = []\n  x = begin\n{}\nrescue StandardError => e\n e.class.to_s.to_sym\nend\n[x, s, a].inspect\nend\n", way.replace('Y', &y)));
                for l in 0..=7 {
                    let mut a: Vec<V> = (1..=l).map(Int).collect();
                    let mut s = vec![];
                    let mut err = None;
                    let mut i = 0;
                    let back = way.contains("reverse");
                    let mut left = a.len();
                    loop {
                        let at = if back {
                            left = left.min(a.len());
                            if left == 0 {
                                break;
                            }
                            left -= 1;
                            left
                        } else {
                            if i >= a.len() {
                                break;
                            }
                            i
                        };
                        s.push(a[at].clone());
                        if s.len() == when {
                            if let Err(e) = o.run(&mut a) {
                                err = Some(Err(e));
                                break;
                            }
                        }
                        i += 1;
                    }
                    let x = err.unwrap_or_else(|| match way {
                        w if w.contains("map") || w.contains("select") || w.contains("object") => List(s.clone()),
                        w if w.contains("any?") => Bool(false),
                        w if w.contains("find") => Nil,
                        _ => Own,
                    });
                    want.push((format!("{l} elements: {way} with {} on element {when}", o.text()), show(&List(vec![x, List(s), Own]), &a)));
                }
            }
            t.push_str("R = []\n");
            for k in 0..n {
                t.push_str(&format!("__each(7) {{ |a, d| __c{k}(a, d) }}\n"));
            }
            t.push_str("R.join('|')\n");
            run_items(t, want, c)
        },
    )
}
const WARM: [&str; 7] = ["0", "__s([1, 2, 3], 1)", "__s([1, 2, 3], -1)", "__s([1, 2, 3, 4, 5, 6], 5)", "__s([1, 2, 3], 1.0)", "__s([1], 4)", "__s([1], nil)"];

pub fn plan(tier: Tier) -> Plan {
    let th = tier == Tier::Thorough;
    let all = ops();
    // what moves elements about or changes the length
    let movers: Vec<Op> = all
        .iter()
        .filter(|o| {
            let t = o.text();
            ["(a[", ".slice!", ".insert", ".push", "<<", ".pop", ".shift", ".unshift", ".concat", ".delete_at", ".clear", ".replace", ".fill(9, 1"].iter().any(|x| t.contains(x))
        })
        .cloned()
        .collect();
    let few: Vec<Op> = movers.iter().step_by(2).cloned().collect();
    let changes = movers.clone();
    Plan {
        prelude: format!(
            "{PRELUDE}def __each(max)\n  k = 0\n  while k < {ROUNDS}\n    l = 0\n    while l <= max\n      d = __ary(l)\n      s = yield(d.dup, d)\n      if k == 0\n        R << s\n      elsif R[l - max - 1] != s\n        R[l - max - 1] += \" but later \" + s\n      end\n      l += 1\n    end\n    k += 1\n  end\nend\n"
        ),
        rule: "every array operation answers and leaves behind what the model says, and touches no other array".into(),
        spaces: vec![
            indexing("indexing", &WARM),
            sequences("one operation", all.clone(), 1, 9),
            changing(changes),
            sequences("two operations", all.clone(), 2, 7),
            sequences("three operations", if th { movers } else { few }, 3, if th { 6 } else { 5 }),
        ],
    }
}
