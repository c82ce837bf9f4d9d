//! P30: sequences of string operations against a model: a vector of characters.
use crate::*;
use engine::*;

type S = Vec<char>;

#[derive(Clone, PartialEq, Debug)]
enum V {
    Nil,
    Int(i64),
    Bool(bool),
    Str(S),
    List(Vec<V>),
    /// The string itself.
    Own,
    Err(&'static str),
}
use V::*;

fn st(s: &str) -> V {
    Str(s.chars().collect())
}
fn cs(s: &str) -> S {
    s.chars().collect()
}
fn txt(s: &[char]) -> String {
    s.iter().collect()
}
fn show(v: &V, own: &S) -> String {
    match v {
        Nil => "nil".into(),
        Int(i) => i.to_string(),
        Bool(b) => b.to_string(),
        Str(s) => s.iter().map(|c| match c { '\n' => "^n".to_string(), '\t' => "^t".to_string(), c => c.to_string() }).collect(),
        List(v) => format!("[{}]", v.iter().map(|x| show(x, own)).collect::<Vec<_>>().join(", ")),
        Own => show(&Str(own.clone()), own),
        Err(e) => format!(":{e}"),
    }
}

/// An index expression between the brackets.
#[derive(Clone, Copy, Debug)]
enum Ix {
    At(i64),
    Span(i64, i64),
    /// First, last (None: open), last one left out.
    Range(Option<i64>, Option<i64>, bool),
    Sub(&'static str),
}
use Ix::*;
impl Ix {
    fn text(self) -> String {
        match self {
            At(i) => i.to_string(),
            Span(i, n) => format!("{i}, {n}"),
            Range(a, b, x) => {
                let s = |v: Option<i64>| v.map_or(String::new(), |v| v.to_string());
                format!("({}{}{})", s(a), if x { "..." } else { ".." }, s(b))
            }
            Sub(s) => format!("'{s}'"),
        }
    }
    /// Start and length, clipped at the end; or what a change through this index raises.
    fn span(self, a: &S) -> Result<(usize, usize), &'static str> {
        let len = a.len() as i64;
        let bad = if matches!(self, Range(..)) { "RangeError" } else { "IndexError" };
        let (s, n) = match self {
            At(i) => (i, 1),
            Span(i, n) => (i, n),
            Range(f, b, x) => {
                let f = f.unwrap_or(0);
                let s = if f < 0 { f + len } else { f };
                let e = match b {
                    None => len,
                    Some(b) => (if b < 0 { b + len } else { b }) + if x { 0 } else { 1 },
                };
                if s < 0 || s > len {
                    return Result::Err(bad);
                }
                (s, (e - s).max(0))
            }
            Sub(t) => {
                let p = find(a, &cs(t), 0).ok_or(bad)?;
                return Ok((p, p + t.chars().count()));
            }
        };
        let s = if s < 0 { s + len } else { s };
        if s < 0 || n < 0 || s > len {
            return Result::Err(bad);
        }
        Ok((s as usize, (s + n).min(len) as usize))
    }
    fn get(self, a: &S) -> V {
        match self.span(a) {
            Result::Err(_) => Nil,
            Ok((s, _)) if matches!(self, At(_)) && s == a.len() => Nil,
            Ok((s, e)) => Str(a[s..e].to_vec()),
        }
    }
    fn set(self, a: &mut S, v: &str) -> V {
        match self.span(a) {
            Result::Err(e) => Err(e),
            Ok((s, e)) => {
                a.splice(s..e, v.chars());
                st(v)
            }
        }
    }
    fn cut(self, a: &mut S) -> V {
        let v = self.get(a);
        if let (Str(_), Ok((s, e))) = (&v, self.span(a)) {
            a.drain(s..e);
        }
        v
    }
}
fn find(a: &[char], t: &[char], from: usize) -> Option<usize> {
    (from..=a.len()).find(|i| a[*i..].starts_with(t))
}
fn rfind(a: &[char], t: &[char], from: usize) -> Option<usize> {
    (0..=from.min(a.len())).rev().find(|i| a[*i..].starts_with(t))
}
fn pos(p: Option<usize>) -> V {
    p.map_or(Nil, |i| Int(i as i64))
}
/// The result of a method that changes the string and answers nil when nothing changed.
fn bang(a: &mut S, new: S) -> V {
    if *a == new {
        Nil
    } else {
        *a = new;
        Own
    }
}
fn up(a: &S) -> S {
    txt(a).to_uppercase().chars().collect()
}
fn down(a: &S) -> S {
    txt(a).to_lowercase().chars().collect()
}
fn swap(a: &S) -> S {
    a.iter().flat_map(|c| if c.is_uppercase() { c.to_lowercase().collect::<Vec<_>>() } else { c.to_uppercase().collect() }).collect()
}
fn cap(a: &S) -> S {
    a.iter().enumerate().flat_map(|(i, c)| if i == 0 { c.to_uppercase().collect::<Vec<_>>() } else { c.to_lowercase().collect() }).collect()
}
fn ws(c: &char) -> bool {
    matches!(c, ' ' | '\t' | '\n')
}
fn lstrip(a: &S) -> S {
    a.iter().skip_while(|c| ws(c)).copied().collect()
}
fn rstrip(a: &S) -> S {
    let n = a.iter().rposition(|c| !ws(c)).map_or(0, |i| i + 1);
    a[..n].to_vec()
}
fn chomp(a: &S) -> S {
    if a.last() == Some(&'\n') { a[..a.len() - 1].to_vec() } else { a.clone() }
}
fn chop(a: &S) -> S {
    a[..a.len().saturating_sub(1)].to_vec()
}
fn squeeze(a: &S, of: fn(char) -> bool) -> S {
    let mut v: S = vec![];
    for c in a {
        if v.last() != Some(c) || !of(*c) {
            v.push(*c);
        }
    }
    v
}
fn map(a: &S, f: fn(char) -> char) -> S {
    a.iter().map(|c| f(*c)).collect()
}
fn keep(a: &S, f: fn(char) -> bool) -> S {
    a.iter().copied().filter(|c| f(*c)).collect()
}
fn count(a: &S, f: fn(char) -> bool) -> V {
    Int(a.iter().filter(|c| f(**c)).count() as i64)
}
fn list(v: Vec<S>) -> V {
    List(v.into_iter().map(Str).collect())
}
/// Parts between the separator, empty ones at the end left out.
fn split(a: &S, sep: &str, keep_empty: bool) -> Vec<S> {
    if a.is_empty() {
        return vec![];
    }
    let mut v: Vec<S> = txt(a).split(sep).map(cs).collect();
    while !keep_empty && v.last().is_some_and(|x| x.is_empty()) {
        v.pop();
    }
    v
}
fn words(a: &S) -> V {
    List(txt(a).split([' ', '\n', '\t']).filter(|x| !x.is_empty()).map(st).collect())
}
fn lines(a: &S) -> Vec<S> {
    txt(a).split_inclusive('\n').map(cs).collect()
}
fn part(a: &S, t: &str, p: Option<usize>, back: bool) -> V {
    let n = t.chars().count();
    match p {
        Some(p) => list(vec![a[..p].to_vec(), cs(t), a[p + n..].to_vec()]),
        None if back => list(vec![vec![], vec![], a.clone()]),
        None => list(vec![a.clone(), vec![], vec![]]),
    }
}
fn sub(a: &S, t: &str, by: &str, all: bool) -> S {
    let s = txt(a);
    cs(&if all { s.replace(t, by) } else { s.replacen(t, by, 1) })
}
fn pad(a: &S, n: usize, left: bool, right: bool, by: char) -> S {
    let m = n.saturating_sub(a.len());
    let l = match (left, right) { (true, true) => m / 2, (true, false) => m, _ => 0 };
    let mut v = vec![by; l];
    v.extend(a);
    v.extend(vec![by; m - l]);
    v
}
fn ord(a: std::cmp::Ordering) -> V {
    Int(a as i64)
}
fn with(a: &S, at: usize, t: &str) -> S {
    let mut v = a.clone();
    v.splice(at..at, t.chars());
    v
}

#[derive(Clone)]
enum Op {
    Get(Ix),
    Set(Ix, &'static str),
    Slice(Ix),
    Insert(i64, &'static str),
    Fun(&'static str, fn(&mut S) -> V),
}
use Op::*;
impl Op {
    fn text(&self) -> String {
        match self {
            Get(i) => format!("a[{}]", i.text()),
            Set(i, v) => format!("(a[{}] = '{v}')", i.text()),
            Slice(i) => format!("a.slice!({})", i.text()),
            Insert(i, v) => format!("a.insert({i}, '{v}')"),
            Fun(t, _) => t.to_string(),
        }
    }
    fn run(&self, a: &mut S) -> V {
        match self {
            Get(i) => i.get(a),
            Set(i, v) => i.set(a, v),
            Slice(i) => i.cut(a),
            Insert(i, v) => {
                let len = a.len() as i64;
                let at = if *i < 0 { i + len + 1 } else { *i };
                if at < 0 || at > len {
                    return Err("IndexError");
                }
                a.splice(at as usize..at as usize, v.chars());
                Own
            }
            Fun(_, f) => f(a),
        }
    }
}

fn ops() -> Vec<Op> {
    let mut v = vec![];
    for i in [0, 1, 2, 5, 24, -1, -3] {
        v.push(Get(At(i)));
    }
    for (i, n) in [(0, 0), (0, 2), (1, 3), (2, 1), (3, 40), (5, 1), (-2, 2), (-3, 1), (0, -1), (24, 3)] {
        v.push(Get(Span(i, n)));
    }
    for (a, b, x) in [(Some(0), Some(1), false), (Some(1), Some(-1), false), (Some(1), Some(-1), true), (Some(-2), None, false), (None, Some(2), true), (Some(4), Some(2), false), (Some(3), None, true), (Some(0), Some(0), true), (Some(0), Some(-4), false)] {
        v.push(Get(Range(a, b, x)));
    }
    v.extend([Get(Sub("b")), Get(Sub("本語")), Set(Sub("b"), "XY"), Set(Sub("本"), ""), Slice(Sub("b"))]);
    for (i, t) in [(At(0), "é"), (At(1), "xyz"), (At(2), ""), (At(-1), "日本"), (At(5), "q"), (At(24), "w"), (Span(0, 0), "ab"), (Span(1, 2), "é"), (Span(1, 0), "uvwxyzuvwxyzuvwxyzuvwxyz"), (Span(2, 30), ""), (Span(-2, 1), "日"), (Span(0, -1), "n"), (Range(Some(0), Some(1), false), "语"), (Range(Some(1), Some(-2), false), ""), (Range(Some(-1), None, false), "end"), (Range(Some(3), Some(1), false), "k"), (Range(Some(0), Some(0), true), "p"), (Range(None, Some(2), true), "r"), (Range(Some(1), Some(-1), true), "日"), (Range(Some(0), Some(-5), false), "m"), (Range(Some(2), Some(50), true), "t")] {
        v.push(Set(i, t));
    }
    for i in [At(0), At(-1), At(3), Span(0, 2), Span(1, 1), Span(2, 20), Span(-2, 2), Range(Some(0), Some(2), true), Range(Some(1), None, false), Range(Some(-2), Some(-1), false), Range(Some(0), Some(0), true), Range(None, Some(1), false), Range(Some(0), Some(-4), false), Range(Some(1), Some(-1), true), Range(Some(2), Some(40), false)] {
        v.push(Slice(i));
    }
    for (i, t) in [(0, "é"), (1, "ab"), (-1, "z"), (-2, "日"), (4, "q"), (-9, "n")] {
        v.push(Insert(i, t));
    }
    let f: Vec<(&'static str, fn(&mut S) -> V)> = vec![
        ("a.length", |a| Int(a.len() as i64)),
        ("a.bytesize", |a| Int(txt(a).len() as i64)),
        ("a.empty?", |a| Bool(a.is_empty())),
        ("a.ascii_only?", |a| Bool(a.iter().all(|c| c.is_ascii()))),
        ("a.valid_encoding?", |_| Bool(true)),
        ("a[0, 2].ascii_only?", |a| Bool(a.iter().take(2).all(|c| c.is_ascii()))),
        ("a[0..-2].ascii_only?", |a| Bool(a.iter().rev().skip(1).all(|c| c.is_ascii()))),
        ("a.chomp!('語')", |a| if a.last() == Some(&'語') { a.pop(); Own } else { Nil }),
        ("a.delete_suffix!('é')", |a| if a.last() == Some(&'é') { a.pop(); Own } else { Nil }),
        ("a.delete_prefix!('日')", |a| if a.first() == Some(&'日') { a.remove(0); Own } else { Nil }),
        ("a.encoding.to_s", |_| st("UTF-8")),
        ("a.reverse", |a| Str(a.iter().rev().copied().collect())),
        ("a.reverse!", |a| { a.reverse(); Own }),
        ("a.upcase", |a| Str(up(a))),
        ("a.downcase", |a| Str(down(a))),
        ("a.swapcase", |a| Str(swap(a))),
        ("a.capitalize", |a| Str(cap(a))),
        ("a.upcase!", |a| { let n = up(a); bang(a, n) }),
        ("a.downcase!", |a| { let n = down(a); bang(a, n) }),
        ("a.swapcase!", |a| { let n = swap(a); bang(a, n) }),
        ("a.capitalize!", |a| { let n = cap(a); bang(a, n) }),
        ("a.strip", |a| Str(rstrip(&lstrip(a)))),
        ("a.lstrip", |a| Str(lstrip(a))),
        ("a.rstrip", |a| Str(rstrip(a))),
        ("a.strip!", |a| { let n = rstrip(&lstrip(a)); bang(a, n) }),
        ("a.lstrip!", |a| { let n = lstrip(a); bang(a, n) }),
        ("a.rstrip!", |a| { let n = rstrip(a); bang(a, n) }),
        ("a.chomp", |a| Str(chomp(a))),
        ("a.chomp!", |a| { let n = chomp(a); bang(a, n) }),
        ("a.chomp('c')", |a| Str(if a.last() == Some(&'c') { chop(a) } else { a.clone() })),
        ("a.chop", |a| Str(chop(a))),
        ("a.chop!", |a| { let n = chop(a); bang(a, n) }),
        ("a.chars", |a| List(a.iter().map(|c| Str(vec![*c])).collect())),
        ("a.each_char.to_a", |a| List(a.iter().map(|c| Str(vec![*c])).collect())),
        ("a.bytes", |a| List(txt(a).bytes().map(|b| Int(b as i64)).collect())),
        ("a.codepoints", |a| List(a.iter().map(|c| Int(*c as i64)).collect())),
        ("a.ord", |a| a.first().map_or(Err("ArgumentError"), |c| Int(*c as i64))),
        ("a.getbyte(1)", |a| txt(a).bytes().nth(1).map_or(Nil, |b| Int(b as i64))),
        ("a.getbyte(-1)", |a| txt(a).bytes().last().map_or(Nil, |b| Int(b as i64))),
        ("a.lines", |a| list(lines(a))),
        ("a.each_line.to_a", |a| list(lines(a))),
        ("a.index('b')", |a| pos(find(a, &['b'], 0))),
        ("a.index('b', 2)", |a| if a.len() < 2 { Nil } else { pos(find(a, &['b'], 2)) }),
        ("a.index('本')", |a| pos(find(a, &['本'], 0))),
        ("a.index('c', -2)", |a| if a.len() < 2 { Nil } else { pos(find(a, &['c'], a.len() - 2)) }),
        ("a.index('')", |_| Int(0)),
        ("a.rindex('b')", |a| pos(rfind(a, &['b'], a.len()))),
        ("a.rindex('b', 2)", |a| pos(rfind(a, &['b'], 2))),
        ("a.rindex('é', -2)", |a| if a.len() < 2 { Nil } else { pos(rfind(a, &['é'], a.len() - 2)) }),
        ("a.rindex('')", |a| Int(a.len() as i64)),
        ("a.include?('bc')", |a| Bool(find(a, &['b', 'c'], 0).is_some())),
        ("a.include?('語')", |a| Bool(a.contains(&'語'))),
        ("a.start_with?('ab', 'é')", |a| Bool(a.starts_with(&['a', 'b']) || a.starts_with(&['é']))),
        ("a.end_with?('c', '語')", |a| Bool(a.ends_with(&['c']) || a.ends_with(&['語']))),
        ("a.delete_prefix('a')", |a| Str(if a.first() == Some(&'a') { a[1..].to_vec() } else { a.clone() })),
        ("a.delete_suffix('c')", |a| Str(if a.last() == Some(&'c') { chop(a) } else { a.clone() })),
        ("a.delete_prefix!('a')", |a| if a.first() == Some(&'a') { a.remove(0); Own } else { Nil }),
        ("a.delete_suffix!('c')", |a| if a.last() == Some(&'c') { a.pop(); Own } else { Nil }),
        ("a.count('a-c')", |a| count(a, |c| ('a'..='c').contains(&c))),
        ("a.count('^a-c')", |a| count(a, |c| !('a'..='c').contains(&c))),
        ("a.count('本é')", |a| count(a, |c| c == '本' || c == 'é')),
        ("a.delete('b本')", |a| Str(keep(a, |c| c != 'b' && c != '本'))),
        ("a.delete!('b')", |a| { let n = keep(a, |c| c != 'b'); bang(a, n) }),
        ("a.squeeze", |a| Str(squeeze(a, |_| true))),
        ("a.squeeze('b,')", |a| Str(squeeze(a, |c| c == 'b' || c == ','))),
        ("a.squeeze!", |a| { let n = squeeze(a, |_| true); bang(a, n) }),
        ("a.tr('a-c', 'x-z')", |a| Str(map(a, |c| match c { 'a' => 'x', 'b' => 'y', 'c' => 'z', c => c }))),
        ("a.tr('a-c', '本')", |a| Str(map(a, |c| if ('a'..='c').contains(&c) { '本' } else { c }))),
        ("a.tr('^a-c', '*')", |a| Str(map(a, |c| if ('a'..='c').contains(&c) { c } else { '*' }))),
        ("a.tr('b', '')", |a| Str(keep(a, |c| c != 'b'))),
        ("a.tr!('b本', 'pq')", |a| { let n = map(a, |c| match c { 'b' => 'p', '本' => 'q', c => c }); bang(a, n) }),
        ("a.prepend('é')", |a| { a.insert(0, 'é'); Own }),
        ("(a << 'x')", |a| { a.push('x'); Own }),
        ("(a << '日本')", |a| { a.extend(['日', '本']); Own }),
        ("(a << 233)", |a| { a.push('é'); Own }),
        ("(a << a)", |a| { let b = a.clone(); a.extend(b); Own }),
        ("a.concat('b', 'c')", |a| { a.extend(['b', 'c']); Own }),
        ("(a += 'b'; a)", |a| { a.push('b'); Own }),
        ("(b = a; b << 'c'; b)", |a| { a.push('c'); Own }),
        ("(a.dup << 'c')", |a| Str(with(a, a.len(), "c"))),
        ("(b = +a; b << 'd'; b)", |a| { a.push('d'); Own }),
        ("(b = String.new(a); b << 'e'; b)", |a| Str(with(a, a.len(), "e"))),
        ("(b = a[0..]; b << 'e'; b)", |a| Str(with(a, a.len(), "e"))),
        ("(b = a.to_s; b << 'f'; b)", |a| { a.push('f'); Own }),
        ("(b = 'lit'; b << a; b)", |a| Str([&cs("lit")[..], a].concat())),
        ("a.replace('new日')", |a| { *a = cs("new日"); Own }),
        ("a.replace(a * 2)", |a| { let b = a.clone(); a.extend(b); Own }),
        ("a.clear", |a| { a.clear(); Own }),
        ("(a + 'q日')", |a| Str(with(a, a.len(), "q日"))),
        ("(a * 3)", |a| Str([&a[..], a, a].concat())),
        ("(a * 0)", |_| Str(vec![])),
        ("(a * -1)", |_| Err("ArgumentError")),
        ("\"#{a}-#{a}\"", |a| Str([&a[..], &['-'], a].concat())),
        ("\"日#{a}\"", |a| Str(with(a, 0, "日"))),
        ("a.center(7, '*')", |a| Str(pad(a, 7, true, true, '*'))),
        ("a.ljust(6, '日')", |a| Str(pad(a, 6, false, true, '日'))),
        ("a.rjust(6)", |a| Str(pad(a, 6, true, false, ' '))),
        ("a.split(',')", |a| list(split(a, ",", false))),
        ("a.split(',', -1)", |a| list(split(a, ",", true))),
        ("a.split('b')", |a| list(split(a, "b", false))),
        ("a.split", |a| words(a)),
        ("a.split('')", |a| List(a.iter().map(|c| Str(vec![*c])).collect())),
        ("a.partition('b')", |a| part(a, "b", find(a, &['b'], 0), false)),
        ("a.rpartition('b')", |a| part(a, "b", rfind(a, &['b'], a.len()), true)),
        ("a.partition('本')", |a| part(a, "本", find(a, &['本'], 0), false)),
        ("a.sub('b', 'XY')", |a| Str(sub(a, "b", "XY", false))),
        ("a.gsub('b', 'é')", |a| Str(sub(a, "b", "é", true))),
        ("a.sub!('b', 'b')", |a| if a.contains(&'b') { Own } else { Nil }),
        ("a.sub!('a', '日')", |a| { let n = sub(a, "a", "日", false); bang(a, n) }),
        ("a.gsub!('b', '')", |a| { let n = sub(a, "b", "", true); bang(a, n) }),
        ("a.gsub('本') { |m| m * 2 }", |a| Str(sub(a, "本", "本本", true))),
        ("(a == 'abc')", |a| Bool(*a == cs("abc"))),
        ("(a == a.dup)", |_| Bool(true)),
        ("(a != 'abc')", |a| Bool(*a != cs("abc"))),
        ("a.eql?('日本語')", |a| Bool(*a == cs("日本語"))),
        ("a.equal?(a.dup)", |_| Bool(false)),
        ("(a.hash == a.dup.hash)", |_| Bool(true)),
        ("(a <=> 'abc')", |a| ord(txt(a).as_str().cmp("abc"))),
        ("(a < 'b')", |a| Bool(txt(a).as_str() < "b")),
        ("(a.upcase.casecmp?(a))", |_| Bool(true)),
        ("{ a => 1 }[a.dup]", |_| Int(1)),
        ("{ a.dup => 1 }.key?('abc')", |a| Bool(*a == cs("abc"))),
        ("(h = { a => 1 }; a << 'h'; h.keys[0])", |a| { let b = a.clone(); a.push('h'); Str(b) }),
        ("a.to_sym.to_s", |a| Str(a.clone())),
        ("a.to_sym.length", |a| Int(a.len() as i64)),
        ("(case a when 'abc' then 1 when 'b' then 2 else 3 end)", |a| Int(if *a == cs("abc") { 1 } else if *a == cs("b") { 2 } else { 3 })),
        ("a.each_char.with_index.map { |x, i| i }", |a| List((0..a.len() as i64).map(Int).collect())),
        ("(s = []; a.each_char { |x| s << x; a << 'w' if s.size == 1; break if s.size > 200 }; s.join)", |a| { let b = a.clone(); if !a.is_empty() { a.push('w') } Str(b) }),
        ("(a.frozen? || a.dup.frozen?)", |_| Bool(false)),
    ];
    v.extend(f.into_iter().map(|(t, f)| Fun(t, f)));
    v
}

const STARTS: [&str; 14] = ["", "a", "é", "abc", "aéb", "日本語", "ab日本cb", "a,b,,c,", " b\tc \n", "AbÉd", "abcabcabcabcabcabcabcab", "abcabcabcabcabcabcabcabc", "abcabcabcabcabcabcabcabé", "bbaabb本本 bb cc aabbc語"];
const ROUNDS: usize = 5;

fn sequences(name: &'static str, ops: Vec<Op>, len: usize, starts: &'static [usize]) -> Space<'static> {
    let n = ops.len();
    Space::new(
        name,
        format!("all sequences of {len} of {n} string operations from {} strings (ASCII and not, within the object and on the heap), each in one method called {ROUNDS} times for every string, so the later calls run compiled", starts.len()),
        (n as u64).pow(len as u32 - 1),
        move |i, c| {
            let mut r = Radix(i);
            let mut seq: Vec<&Op> = (1..len).map(|_| &ops[r.take(n)]).collect();
            let mut t = String::new();
            let mut want = vec![];
            for (k, last) in ops.iter().enumerate() {
                seq.push(last);
                t.push_str(&format!("def __c{k}(a, d)\n"));
                for (j, o) in seq.iter().enumerate() {
                    t.push_str(&format!("  x{j} = begin\n{}\nrescue StandardError => e\n e.class.to_s.to_sym\nend\n", o.text()));
                    // the string answered may be changed by the next operation
                    t.push_str(&format!("  x{j} = x{j}.inspect\n"));
                }
                t.push_str(&format!("  [{}, a.inspect, d.inspect].join(', ')\nend\n", (0..len).map(|j| format!("x{j}")).collect::<Vec<_>>().join(", ")));
                for l in starts {
                    let d = cs(STARTS[*l]);
                    let mut a = d.clone();
                    let mut res: Vec<String> = vec![];
                    for o in &seq {
                        let v = o.run(&mut a);
                        res.push(show(&v, &a));
                    }
                    res.extend([show(&Own, &a), show(&Str(d), &a)]);
                    let path = seq.iter().map(|o| o.text()).collect::<Vec<_>>().join("; ");
                    want.push((format!("{:?}: {path}", STARTS[*l]), res.join(", ")));
                }
                seq.pop();
            }
            t.push_str("R = []\n");
            for k in 0..n {
                t.push_str(&format!("__each({starts:?}) {{ |a, d| __c{k}(a, d) }}\n"));
            }
            t.push_str("R.join('|').delete('\"').tr('\\\\', '^')\n");
            run_items(t, want, c)
        },
    )
}

/// Iteration over a string that the block changes once: all but each_byte go over the string as it was.
fn changing(ops: Vec<Op>) -> Space<'static> {
    const WAYS: [&str; 7] = ["a.each_char { |x| Y }", "a.each_line { |x| Y }", "a.each_codepoint { |x| Y }", "a.each_byte { |x| Y }", "a.each_grapheme_cluster { |x| Y }", "(a.each_char.with_index { |x, i| Y }; a)", "(a.chars.each { |x| Y }; a)"];
    const STARTS_: [usize; 14] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13];
    let n = ops.len();
    Space::new(
        "changed while iterated",
        format!("{} ways of iterating over each of {} strings, whose block makes one of {n} changes when it has seen 1 to 3 parts, {ROUNDS} times over", WAYS.len(), STARTS.len()),
        WAYS.len() as u64 * 3,
        move |i, c| {
            let mut r = Radix(i);
            let way = WAYS[r.take(WAYS.len())];
            let when = r.take(3) + 1;
            let mut t = String::new();
            let mut want = vec![];
            for (k, o) in ops.iter().enumerate() {
                let y = format!("s << x; ({} if s.size == {when}); (break :far if s.size > 300)", o.text());
                t.push_str(&format!("def __c{k}(a, d)\n  s = []\n  x = begin\n{}\nrescue StandardError => e\n e.class.to_s.to_sym\nend\n[x.inspect, s.inspect, a.inspect].join(', ')\nend\n", way.replace('Y', &y)));
                for l in STARTS {
                    let mut a = cs(l);
                    let mut s = vec![];
                    let mut err = None;
                    let parts = match way {
                        w if w.contains("line") => lines(&a).into_iter().map(Str).collect(),
                        w if w.contains("codepoint") => a.iter().map(|c| Int(*c as i64)).collect(),
                        w if w.contains("byte") => vec![],
                        _ => a.iter().map(|c| Str(vec![*c])).collect::<Vec<_>>(),
                    };
                    for k in 0.. {
                        let part = if way.contains("byte") { txt(&a).bytes().nth(k).map(|b| Int(b as i64)) } else { parts.get(k).cloned() };
                        let Some(p) = part else { break };
                        s.push(p);
                        if s.len() == when {
                            if let Err(e) = o.run(&mut a) {
                                err = Some(Err(e));
                                break;
                            }
                        }
                    }
                    let res = [err.unwrap_or(Own), List(s), Own].iter().map(|v| show(v, &a)).collect::<Vec<_>>().join(", ");
                    want.push((format!("{l:?}: {way} with {} on part {when}", o.text()), res));
                }
            }
            t.push_str("R = []\n");
            for k in 0..n {
                t.push_str(&format!("__each({STARTS_:?}) {{ |a, d| __c{k}(a, d) }}\n"));
            }
            t.push_str("R.join('|').delete('\"').tr('\\\\', '^')\n");
            run_items(t, want, c)
        },
    )
}

pub fn plan(tier: Tier) -> Plan {
    let th = tier == Tier::Thorough;
    let all = ops();
    let movers: Vec<Op> = all
        .iter()
        .filter(|o| {
            let t = o.text();
            ["(a[", ".slice!", ".insert", "<<", ".prepend", ".concat", ".replace", ".clear", "!"].iter().any(|x| t.contains(x))
        })
        .cloned()
        .collect();
    let few: Vec<Op> = movers.iter().step_by(3).cloned().collect();
    let lits = STARTS.iter().map(|s| format!("{s:?}")).collect::<Vec<_>>().join(", ");
    const ALL: [usize; 14] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13];
    const SOME: [usize; 9] = [0, 2, 3, 5, 6, 8, 11, 12, 13];
    const FEW: [usize; 4] = [2, 3, 6, 11];
    Plan {
        prelude: format!(
            "STARTS = [{lits}]\ndef __each(list)\n  k = 0\n  while k < {ROUNDS}\n    list.each_with_index do |l, j|\n      d = STARTS[l]\n      s = yield(d.dup, d)\n      if k == 0\n        R << s\n      elsif R[j - list.size] != s\n        R[j - list.size] += \" but later \" + s\n      end\n    end\n    k += 1\n  end\nend\n"
        ),
        rule: "every string operation answers and leaves behind what the model says, and touches no other string".into(),
        spaces: vec![
            sequences("one operation", all.clone(), 1, &ALL),
            changing(movers.clone().into_iter().filter(|o| !o.text().contains("(a +=") && !o.text().contains("each_char")).collect()),
            sequences("two operations", all.clone(), 2, if th { &ALL } else { &SOME }),
            sequences("three operations", if th { movers } else { few }, 3, &FEW),
        ],
    }
}
