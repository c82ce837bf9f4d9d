//! P21: floating point arithmetic is IEEE double arithmetic in every execution mode, and mixing floats
//! with integers of any size converts and compares exactly.
use crate::wide::W;
use crate::*;
use engine::*;
use std::cmp::Ordering;

#[derive(Clone, Copy, Debug)]
pub enum N {
    I(W),
    F(f64),
}
use N::*;

impl N {
    fn f(self) -> f64 {
        match self {
            I(w) => w.to_f64(),
            F(x) => x,
        }
    }
    fn is_float(self) -> bool {
        matches!(self, F(_))
    }
    fn lit(self) -> String {
        match self {
            I(w) => if w.is_neg() { format!("({w})") } else { w.to_string() },
            F(x) if x.is_nan() => "Float::NAN".into(),
            F(x) if x.is_infinite() => if x > 0.0 { "Float::INFINITY".into() } else { "(-Float::INFINITY)".into() },
            F(x) => if x.is_sign_negative() { format!("({})", ruby_float(x)) } else { ruby_float(x) },
        }
    }
    pub fn show(self) -> String {
        match self {
            I(w) => w.to_string(),
            F(x) => ruby_float(x),
        }
    }
    pub fn add(self, o: N) -> N {
        match (self, o) {
            (I(a), I(b)) => I(a.add(b)),
            _ => F(self.f() + o.f()),
        }
    }
    pub fn sub(self, o: N) -> N {
        match (self, o) {
            (I(a), I(b)) => I(a.sub(b)),
            _ => F(self.f() - o.f()),
        }
    }
    pub fn mul(self, o: N) -> N {
        match (self, o) {
            (I(a), I(b)) => I(a.mul(b)),
            _ => F(self.f() * o.f()),
        }
    }
    pub fn neg(self) -> N {
        match self {
            I(a) => I(a.neg()),
            F(x) => F(-x),
        }
    }
    /// Exact comparison, whatever the two representations.
    pub fn cmp(self, o: N) -> Option<Ordering> {
        match (self, o) {
            (I(a), I(b)) => Some(a.cmp(&b)),
            (F(x), F(y)) => x.partial_cmp(&y),
            (F(_), I(_)) => o.cmp(self).map(Ordering::reverse),
            (I(a), F(y)) => {
                if y.is_nan() {
                    None
                } else if y.abs() > 1e100 {
                    Some(if y > 0.0 { Ordering::Less } else { Ordering::Greater })
                } else {
                    let t = W::trunc(y);
                    Some(a.cmp(&t).then_with(|| {
                        let fraction = y - y.trunc();
                        0.0.partial_cmp(&fraction).unwrap()
                    }))
                }
            }
        }
    }
    fn same(self, o: N) -> bool {
        self.is_float() == o.is_float() && self.cmp(o) == Some(Ordering::Equal)
    }
    /// Comparing an integer that no float equals with a float is not part of the claim.
    fn exact(self) -> bool {
        match self {
            I(w) => W::trunc(w.to_f64()) == w,
            F(_) => true,
        }
    }
    fn nan(self) -> bool {
        self.f().is_nan()
    }
    fn zero(self) -> bool {
        self.f() == 0.0
    }
}

type G2 = Box<dyn Fn(N, N) -> Option<String>>;

fn b(x: bool) -> String {
    x.to_string()
}

fn modulo(x: f64, y: f64) -> f64 {
    if y.is_nan() {
        return y;
    }
    let mut m = if y.is_infinite() && !x.is_infinite() { x } else { x % y };
    if y * m < 0.0 {
        m += y;
    }
    m
}

fn int_of(x: f64) -> Option<String> {
    if x.is_nan() || x.is_infinite() {
        Some("FloatDomainError".into())
    } else if x.abs() > 1e100 {
        None
    } else {
        Some(W::trunc(x).to_string())
    }
}

fn divmod(x: f64, y: f64) -> Option<String> {
    if y.is_nan() {
        return Some("FloatDomainError".into());
    }
    if !x.is_finite() {
        return Some("FloatDomainError".into());
    }
    if y == 0.0 {
        return Some("ZeroDivisionError".into());
    }
    let m0 = if x == 0.0 || (y.is_infinite() && !x.is_infinite()) { x } else { x % y };
    let mut d = if x.is_infinite() && !y.is_infinite() { x } else { ((x - m0) / y).round() };
    let mut m = m0;
    if y * m < 0.0 {
        m += y;
        d -= 1.0;
    }
    if y * m == 0.0 && m0 != 0.0 {
        return None;
    }
    if !d.is_finite() {
        return None;
    }
    Some(format!("[{}, {}]", int_of(d)?, ruby_float(m)))
}

fn binary() -> Vec<(&'static str, G2)> {
    fn it(f: impl Fn(N, N) -> String + 'static) -> G2 {
        Box::new(move |x, y| Some(f(x, y)))
    }
    fn of(f: impl Fn(f64, f64) -> f64 + 'static) -> G2 {
        Box::new(move |x, y| Some(ruby_float(f(x.f(), y.f()))))
    }
    fn cmp(f: impl Fn(Option<Ordering>) -> String + 'static) -> G2 {
        Box::new(move |x, y| if x.exact() && y.exact() { Some(f(x.cmp(y))) } else { None })
    }
    fn ncmp(f: impl Fn(Option<Ordering>) -> String + 'static) -> G2 {
        Box::new(move |x, y| if x.exact() && y.exact() && !x.nan() && !y.nan() { Some(f(x.cmp(y))) } else { None })
    }
    use Ordering::*;
    vec![
        ("L + R", of(|x, y| x + y)),
        ("L - R", of(|x, y| x - y)),
        ("L * R", of(|x, y| x * y)),
        ("L / R", of(|x, y| x / y)),
        ("L % R", Box::new(|x, y| if y.zero() { x.is_float().then(|| "NaN".into()) } else if x.f() % y.f() != 0.0 && (x.f() % y.f()) * y.f() == 0.0 { None } else { Some(ruby_float(modulo(x.f(), y.f()))) })),
        ("L.fdiv(R)", of(|x, y| x / y)),
        ("L.quo(R)", of(|x, y| x / y)),
        ("L.divmod(R)", Box::new(|x, y| divmod(x.f(), y.f()))),
        ("L.div(R)", Box::new(|x, y| if !x.f().is_finite() { None } else if y.zero() { Some("ZeroDivisionError".into()) } else { Some((x.f() / y.f()).floor()).filter(|d| d.is_finite()).and_then(int_of) })),
        ("L ** R", Box::new(|x, y| if x.f() < 0.0 && y.f() != y.f().round() { None } else { Some(ruby_float(x.f().powf(y.f()))) })),
        ("L == R", cmp(|o| b(o == Some(Equal)))),
        ("L != R", cmp(|o| b(o != Some(Equal)))),
        ("L < R", cmp(|o| b(o == Some(Less)))),
        ("L <= R", cmp(|o| b(matches!(o, Some(Less | Equal))))),
        ("L > R", cmp(|o| b(o == Some(Greater)))),
        ("L >= R", cmp(|o| b(matches!(o, Some(Greater | Equal))))),
        ("L <=> R", cmp(|o| o.map_or("nil".into(), |o| (o as i8).to_string()))),
        ("L === R", cmp(|o| b(o == Some(Equal)))),
        ("!(L < R)", cmp(|o| b(o != Some(Less)))),
        ("(L < R ? 1 : 2)", cmp(|o| if o == Some(Less) { "1" } else { "2" }.into())),
        ("(if L >= R then 1 else 2 end)", cmp(|o| if matches!(o, Some(Greater | Equal)) { "1" } else { "2" }.into())),
        ("(unless L > R then 1 else 2 end)", cmp(|o| if o != Some(Greater) { "1" } else { "2" }.into())),
        ("(unless L <= R then 1 else 2 end)", cmp(|o| if !matches!(o, Some(Less | Equal)) { "1" } else { "2" }.into())),
        ("(L == R ? 1 : 2)", cmp(|o| if o == Some(Equal) { "1" } else { "2" }.into())),
        ("(L != R ? 1 : 2)", cmp(|o| if o != Some(Equal) { "1" } else { "2" }.into())),
        ("(1 while L < R && (break); L > R && 5)", cmp(|o| if o == Some(Greater) { "5" } else { "false" }.into())),
        ("L.eql?(R)", it(|x, y| b(x.same(y)))),
        ("({ L => 1 })[R]", Box::new(|x, y| if x.nan() || x.zero() && y.zero() { None } else { Some(if x.same(y) { "1" } else { "nil" }.into()) })),
        ("(L.hash == R.hash)", Box::new(|x, y| if x.same(y) { Some("true".into()) } else { None })),
        ("[L, R].max", Box::new(|x, y| if x.nan() || y.nan() || !x.exact() || !y.exact() { None } else { Some(if x.cmp(y) == Some(Less) { y } else { x }.show()) })),
        ("[L, R].min", Box::new(|x, y| if x.nan() || y.nan() || !x.exact() || !y.exact() { None } else { Some(if x.cmp(y) == Some(Greater) { y } else { x }.show()) })),
        ("(z = L; z += R; z)", of(|x, y| x + y)),
        ("(z = L; z *= R; z)", of(|x, y| x * y)),
        ("(@z = L; @z -= R; @z)", of(|x, y| x - y)),
        ("(z = [L]; z[0] /= R; z)", it(|x, y| format!("[{}]", ruby_float(x.f() / y.f())))),
        ("(L + R) * (L - R)", of(|x, y| (x + y) * (x - y))),
        ("-(L * R) + L", of(|x, y| -(x * y) + x)),
        ("L + 1 < R", Box::new(|x, y| { let z = x.add(I(W::from(1))); if z.exact() && y.exact() { Some(b(z.cmp(y) == Some(Less))) } else { None } })),
        ("[L * 1, R].inspect", it(|x, y| format!("[{}, {}]", x.show(), y.show()))),
        ("L.coerce(R)", Box::new(|x, y| if x.is_float() { Some(format!("[{}, {}]", ruby_float(y.f()), ruby_float(x.f()))) } else { None })),
        ("L.send(:+, R)", of(|x, y| x + y)),
        ("L.between?(R, R)", ncmp(|o| b(o == Some(Equal)))),
        ("(z = 0.5; 2.times { z = L * R + z }; z)", of(|x, y| x * y + (x * y + 0.5))),
    ]
}

fn unary() -> Vec<(&'static str, G2)> {
    fn it(f: impl Fn(f64) -> Option<String> + 'static) -> G2 {
        Box::new(move |x, _| f(x.f()))
    }
    fn of(f: impl Fn(f64) -> f64 + 'static) -> G2 {
        it(move |x| Some(ruby_float(f(x))))
    }
    fn yes(f: impl Fn(f64) -> bool + 'static) -> G2 {
        it(move |x| Some(b(f(x))))
    }
    vec![
        ("-L", of(|x| -x)),
        ("+L", of(|x| x)),
        ("-(-L)", of(|x| x)),
        ("L.abs", of(f64::abs)),
        ("L.to_f", of(|x| x)),
        ("L.to_i", it(int_of)),
        ("L.truncate", it(int_of)),
        ("Integer(L)", it(int_of)),
        ("L.floor", it(|x| int_of(x.floor()))),
        ("L.ceil", it(|x| int_of(x.ceil()))),
        ("L.round", it(|x| int_of(x.round()))),
        ("L.round(half: :even)", it(|x| int_of(x.round_ties_even()))),
        ("L.round(half: :down)", it(|x| int_of(if (x - x.trunc()).abs() == 0.5 { x.trunc() } else { x.round() }))),
        ("L.nan?", yes(f64::is_nan)),
        ("L.finite?", yes(f64::is_finite)),
        ("L.infinite?", it(|x| Some(if x.is_infinite() { if x > 0.0 { "1" } else { "-1" } } else { "nil" }.into()))),
        ("L.zero?", yes(|x| x == 0.0)),
        ("L.positive?", yes(|x| x > 0.0)),
        ("L.negative?", yes(|x| x < 0.0)),
        ("L.integer?", yes(|_| false)),
        ("L.next_float", of(f64::next_up)),
        ("L.prev_float", of(f64::next_down)),
        ("L.to_s", it(|x| Some(ruby_float(x)))),
        ("L.inspect", it(|x| Some(ruby_float(x)))),
        ("\"#{L}\"", it(|x| Some(ruby_float(x)))),
        ("L.to_s.to_f", it(|x| x.is_finite().then(|| ruby_float(x)))),
        ("Float(L.to_s)", it(|x| x.is_finite().then(|| ruby_float(x)))),
        ("L == L.to_i", it(|x| x.is_finite().then(|| b(x == x.trunc())))),
        ("L == L", yes(|x| x == x)),
        ("L != L", yes(|x| x != x)),
        ("L * L", of(|x| x * x)),
        ("L - L", of(|x| x - x)),
        ("L / L", of(|x| x / x)),
        ("(L ? 1 : 2)", it(|_| Some("1".into()))),
        ("L.class", it(|_| Some("Float".into()))),
        ("L.frozen?", yes(|_| true)),
        ("L.dup", of(|x| x)),
        ("[L].dup[0]", of(|x| x)),
        ("[L, 1, L].sum", of(|x| x + 1.0 + x)),
        ("Math.sqrt(L)", it(|x| Some(if x < 0.0 { "Math::DomainError".into() } else { ruby_float(x.sqrt()) }))),
        ("[L].pack('E').unpack1('E')", of(|x| x)),
        ("[L].pack('G').bytes", it(|x| if x.is_nan() { None } else { Some(format!("{:?}", x.to_be_bytes())) })),
        ("[L].pack('e').unpack1('e')", of(|x| x as f32 as f64)),
        ("('%.3f' % L)", it(|x| x.is_finite().then(|| format!("{x:.3}")))),
        ("('%.0f' % L)", it(|x| x.is_finite().then(|| format!("{x:.0}")))),
        ("('%.10e' % L)", it(|x| {
            x.is_finite().then(|| {
                let s = format!("{x:.10e}");
                let (m, e) = s.split_once('e').unwrap();
                let e: i32 = e.parse().unwrap();
                format!("{m}e{}{:02}", if e < 0 { '-' } else { '+' }, e.abs())
            })
        })),
        ("(L * 0.5).to_s", it(|x| Some(ruby_float(x * 0.5)))),
        ("[[L, 1], [L, 2]].to_h.size", it(|x| (!x.is_nan()).then(|| "1".into()))),
        ("L.hash == (L + 0.0).hash", it(|x| (!x.is_nan()).then(|| "true".into()))),
        ("L.to_r.to_f", it(|x| if x.is_finite() && x.abs() > 1e-9 && x.abs() < 1e15 { Some(ruby_float(x)) } else { None })),
    ]
}

fn floats(tier: Tier) -> Vec<f64> {
    let mut v = vec![
        0.0, -0.0, 1.0, -1.0, 0.5, -2.5, 3.0, 0.1, -1.0 / 3.0, 7.25,
        1e15, 1e16, 9007199254740992.0, -9007199254740993.0, 4611686018427387904.0, -4611686018427387904.0, 9223372036854775808.0, 1e20, -1e20,
        1e300, -f64::MAX, f64::MIN_POSITIVE, 5e-324, 1.7272337110188893e-77, 1.1579208923731620e77,
        f64::INFINITY, f64::NEG_INFINITY, f64::NAN,
    ];
    if tier == Tier::Thorough {
        v.extend([2.0, 1.5, -0.5, 4.5, 0.2, 1e-5, 1e-4, 99999.5, 123456789.125, 4611686018427387000.0, -9223372036854775808.0, 1e22, 1e23, 1e-300, -5e-324, 1.7272337110188890e-77, -1.1579208923731618e77, f64::MAX, 0.49999999999999994]);
    }
    v
}

fn ints(tier: Tier) -> Vec<W> {
    let p = |n: u32| 1i128 << n;
    let mut v = vec![0, 1, -1, 2, -3, 7, p(53) + 1, p(62) - 1, -p(62), p(62), p(63), -(p(70)) + 1, 10i128.pow(20)];
    if tier == Tier::Thorough {
        v.extend([3, 5, 100, -100, p(31), p(53), -p(53) - 1, -p(62) - 1, p(63) - 1, -p(63), p(64), p(64) + 1, p(100)]);
    }
    v.into_iter().map(W::from).collect()
}

#[derive(Clone, Copy, PartialEq)]
enum Form {
    Vars,
    RightLit,
    LeftLit,
    BothLit,
    Loop,
}

fn program(ops: &[(&str, G2)], form: Form, s: (N, N), v: (N, N), want: &mut Vec<(String, String)>) -> String {
    let mut p = String::from("r = []\n");
    for (i, (op, f)) in ops.iter().enumerate() {
        let (l, r, s) = match form {
            Form::Vars | Form::Loop => ("a".to_string(), "b".to_string(), s),
            Form::RightLit => ("a".to_string(), v.1.lit(), (s.0, v.1)),
            Form::LeftLit => (v.0.lit(), "b".to_string(), (v.0, s.1)),
            Form::BothLit => (v.0.lit(), v.1.lit(), v),
        };
        // the meaning of an operation on two integers is not the subject here
        let (ws, wv) = (if s.0.is_float() || s.1.is_float() { f(s.0, s.1) } else { None }, f(v.0, v.1));
        let Some(wv) = wv else { continue };
        let (s, ws) = match ws {
            Some(w) => (s, w),
            None => (v, wv.clone()),
        };
        let e = op.replace('L', "\u{1}").replace('R', &r).replace('\u{1}', &l);
        let args = format!("{}, {}, {}, {}", s.0.lit(), s.1.lit(), v.0.lit(), v.1.lit());
        match form {
            Form::Loop => p.push_str(&format!(
                "def f{i}(a, b)\n i = 0\n z = nil\n y = nil\n while i < 104\n  y = {e}\n  i += 1\n end\n y\nend\nr << __two({args}) {{ |a, b| f{i}(a, b) }}\n"
            )),
            _ => p.push_str(&format!("def f{i}(a, b)\n {e}\nend\nr << __sched({args}) {{ |a, b| f{i}(a, b) }}\n")),
        }
        want.push((format!("{e} with a={} b={} and a={} b={}", s.0.show(), s.1.show(), v.0.show(), v.1.show()), format!("{ws} {wv}")));
    }
    p.push_str("r.join('|').delete('\"')\n");
    p
}

/// Statements over two variables that hold integers or floats by turns.
const FLOW: &[(&str, fn(&mut [N; 2], i64))] = &[
    ("a += 1", |s, _| s[0] = s[0].add(I(W::from(1)))),
    ("a += 0.5", |s, _| s[0] = s[0].add(F(0.5))),
    ("b = a", |s, _| s[1] = s[0]),
    ("a, b = b, a", |s, _| s.swap(0, 1)),
    ("b += a", |s, _| s[1] = s[1].add(s[0])),
    ("a = 3", |s, _| s[0] = I(W::from(3))),
    ("a = 1.5", |s, _| s[0] = F(1.5)),
    ("b = a * 2.0", |s, _| s[1] = s[0].mul(F(2.0))),
    ("a = b - a", |s, _| s[0] = s[1].sub(s[0])),
    ("a += 1.25 if a < b", |s, _| if s[0].cmp(s[1]) == Some(Ordering::Less) { s[0] = s[0].add(F(1.25)) }),
    ("b = i if i % 3 == 0", |s, i| if i % 3 == 0 { s[1] = I(W::from(i as i128)) }),
    ("b = i * 0.25 if i > 110", |s, i| if i > 110 { s[1] = F(i as f64 * 0.25) }),
    ("a = -a", |s, _| s[0] = s[0].neg()),
    ("a = (b > 3 ? b : a)", |s, _| if s[1].cmp(I(W::from(3))) == Some(Ordering::Greater) { s[0] = s[1] }),
    ("a = [a, b].max", |s, _| if s[0].cmp(s[1]) == Some(Ordering::Less) { s[0] = s[1] }),
    ("a = __id(b)", |s, _| s[0] = s[1]),
    ("1.times { a += b }", |s, _| s[0] = s[0].add(s[1])),
    ("b = 4611686018427387903 if i == 105", |s, i| if i == 105 { s[1] = I(W::from((1i128 << 62) - 1)) }),
];

fn flow(depth: usize) -> Space<'static> {
    let n = FLOW.len();
    let count = n.pow(depth as u32);
    const BATCH: usize = 18;
    Space::new(
        format!("flow-{depth}"),
        format!("all sequences of {depth} of {n} statements over two variables that change between integer and float inside a loop of 125 rounds, called three times from an integer, a float and a mixed start"),
        (count / BATCH) as u64,
        move |i, c| {
            let mut t = String::from("r = []\n");
            let mut want = vec![];
            for k in 0..BATCH {
                let mut x = Radix(i * BATCH as u64 + k as u64);
                let st: Vec<usize> = (0..depth).map(|_| x.take(n)).collect();
                let body = st.iter().map(|s| FLOW[*s].0).collect::<Vec<_>>().join("\n  ");
                t.push_str(&format!("def g{k}(a, b)\n i = 0\n while i < 125\n  {body}\n  i += 1\n end\n [a, b]\nend\n"));
                for start in [[I(W::from(2)), I(W::from(1))], [F(0.25), F(8.0)], [I(W::from(5)), F(2.5)], [F(2.5), I(W::from(5))]] {
                    let mut s = start;
                    let mut inexact = false;
                    for i in 0..125 {
                        for x in &st {
                            // see the note on comparisons with integers that no float equals
                            let compares = FLOW[*x].0.contains("a < b") || FLOW[*x].0.contains("max");
                            inexact |= match (s[0], s[1]) {
                                _ if !compares => false,
                                (F(_), I(w)) | (I(w), F(_)) => W::trunc(w.to_f64()) != w,
                                _ => false,
                            };
                            FLOW[*x].1(&mut s, i);
                        }
                    }
                    if inexact {
                        continue;
                    }
                    t.push_str(&format!("r << g{k}({}, {}).inspect\n", start[0].lit(), start[1].lit()));
                    want.push((format!("125 times ({}) from a={} b={}", body.replace("\n  ", "; "), start[0].show(), start[1].show()), format!("[{}, {}]", s[0].show(), s[1].show())));
                }
            }
            if want.is_empty() {
                return Ok(());
            }
            t.push_str("r.join('|')");
            run_items(t, want, c)
        },
    )
}

/// Statements for the two arms of a conditional, over three variables.
const ARM: &[(&str, fn(&mut [N; 3]))] = &[
    ("a = b", |s| s[0] = s[1]),
    ("b = a", |s| s[1] = s[0]),
    ("a = d", |s| s[0] = s[2]),
    ("d = b", |s| s[2] = s[1]),
    ("a = 1.5", |s| s[0] = F(1.5)),
    ("b = 2.5", |s| s[1] = F(2.5)),
    ("a = 3", |s| s[0] = I(W::from(3))),
    ("a += b", |s| s[0] = s[0].add(s[1])),
    ("b += 0.5", |s| s[1] = s[1].add(F(0.5))),
    ("a, b = b, a", |s| s.swap(0, 1)),
];

/// Where two paths meet, the same variable may live in different registers, in memory or be a constant.
fn arms(then: usize, other: usize) -> Space<'static> {
    let n = ARM.len();
    let depth = then + other;
    let count = n.pow(depth as u32);
    const BATCH: usize = 20;
    Space::new(
        format!("arms-{then}-{other}"),
        format!("all conditionals with {then} and {other} of {n} assignments between three float variables in their arms, in a method called often and in a loop, both arms taken by turns"),
        (count / BATCH) as u64,
        move |i, c| {
            let mut t = String::from("r = []\n");
            let mut want = vec![];
            for k in 0..BATCH {
                let mut x = Radix(i * BATCH as u64 + k as u64);
                let st: Vec<usize> = (0..depth).map(|_| x.take(n)).collect();
                let (yes, no) = st.split_at(then);
                let text = |v: &[usize]| v.iter().map(|s| ARM[*s].0).collect::<Vec<_>>().join("; ");
                let cond = format!("if c; {}; else; {}; end", text(yes), text(no));
                t.push_str(&format!("def g{k}(x, y, c)\n a = x + 0.25\n b = y + 0.25\n d = x * 2.0\n {cond}\n [a, b, d, a + b, b * 4]\nend\n"));
                t.push_str(&format!("def h{k}(x, y)\n a = x + 0.25\n b = y + 0.25\n d = x * 2.0\n i = 0\n while i < 124\n  c = i % 2 == 0\n  {cond}\n  b = b - 100.0 if b > 1000.0\n  a = a - 900.0 if a > 1000.0\n  i += 1\n end\n [a, b, d]\nend\n"));
                let start = [F(3.25), F(5.25), F(6.0)];
                t.push_str(&format!("u = (0..27).map {{ |i| g{k}(3.0, 5.0, i % 2 == 0).inspect }}\nr << u[26] << u[25] << u.uniq.size.to_s << h{k}(3.0, 5.0).inspect\n"));
                let mut ans = vec![];
                for arm in [yes, no] {
                    let mut s = start;
                    for x in arm {
                        ARM[*x].1(&mut s);
                    }
                    ans.push(format!("[{}, {}, {}, {}, {}]", s[0].show(), s[1].show(), s[2].show(), s[0].add(s[1]).show(), s[1].mul(I(W::from(4))).show()));
                }
                let mut s = start;
                for i in 0..124 {
                    for x in if i % 2 == 0 { yes } else { no } {
                        ARM[*x].1(&mut s);
                    }
                    if s[1].cmp(F(1000.0)) == Some(Ordering::Greater) {
                        s[1] = s[1].sub(F(100.0));
                    }
                    if s[0].cmp(F(1000.0)) == Some(Ordering::Greater) {
                        s[0] = s[0].sub(F(900.0));
                    }
                }
                let distinct = if ans[0] == ans[1] { 1 } else { 2 };
                want.push((format!("{cond} with c true"), ans[0].clone()));
                want.push((format!("{cond} with c false"), ans[1].clone()));
                want.push((format!("{cond}: different answers seen"), distinct.to_string()));
                want.push((format!("124 times {cond}"), format!("[{}, {}, {}]", s[0].show(), s[1].show(), s[2].show())));
            }
            t.push_str("r.join('|')");
            run_items(t, want, c)
        },
    )
}

/// Many floats alive at once: they are kept in registers and on the stack, and have to be put back into
/// the right variables when the compiled code is left.
fn spill(tier: Tier) -> Space<'static> {
    let max = if tier == Tier::Quick { 20 } else { 26 };
    let exits = [
        ("", "nothing"),
        ("__id(1.0)", "call"),
        ("u = (i == 109 ? nil : 1.0)", "other variable changes class"),
        ("v0 = (i == 109 ? 4 : v0)", "first variable becomes an integer"),
        ("raise 'x' if i == 109", "exception"),
        ("1.times { v0 += 1.0 }", "block writes a variable"),
        ("break if i == 109", "break"),
        ("w = [v0, v1]", "boxing"),
        ("GC.start if i == 109", "collection"),
    ];
    let ne = exits.len();
    Space::new(
        "spill",
        format!("1..{max} float variables alive at once in a compiled loop, updated from each other, with {ne} ways to leave or disturb the compiled code"),
        (max * ne * 3) as u64,
        move |i, c| {
            let mut x = Radix(i);
            let (n, e, kind) = (x.take(max) + 1, x.take(ne), x.take(3));
            let n = n.max(2);
            let mut t = String::from("def g\n");
            let mut v: Vec<N> = (0..n).map(|k| F(k as f64 + 0.5)).collect();
            for k in 0..n {
                t.push_str(&format!(" v{k} = {}\n", v[k].lit()));
            }
            t.push_str(" i = 0\n begin\n while i < 120\n");
            let mut body = vec![];
            for k in 0..n {
                let o = match kind {
                    0 => (k + 1) % n,
                    1 => (k + n - 1) % n,
                    _ => (k * 7 + 3) % n,
                };
                body.push((k, o));
                match kind {
                    0 => t.push_str(&format!("  v{k} = v{k} * 0.5 + v{o}\n")),
                    1 => t.push_str(&format!("  v{k} = v{o} - v{k} * 0.25 if v{k} < 1000.0\n")),
                    _ => t.push_str(&format!("  v{k} += v{o} * 0.125 + i\n")),
                }
            }
            t.push_str(&format!("  {}\n  i += 1\n end\n rescue\n end\n", exits[e].0));
            t.push_str(&format!(" [{}]\nend\nr = 3.times.map {{ g.inspect }}.join('|')\n", (0..n).map(|k| format!("v{k}")).collect::<Vec<_>>().join(", ")));
            for i in 0..120 {
                for (k, o) in &body {
                    match kind {
                        0 => v[*k] = v[*k].mul(F(0.5)).add(v[*o]),
                        1 => if v[*k].f() < 1000.0 { v[*k] = v[*o].sub(v[*k].mul(F(0.25))) },
                        _ => v[*k] = v[*k].add(v[*o].mul(F(0.125)).add(I(W::from(i)))),
                    }
                }
                if e == 3 && i == 109 {
                    v[0] = I(W::from(4));
                }
                if e == 5 {
                    v[0] = v[0].add(F(1.0));
                }
                if (e == 4 || e == 6) && i == 109 {
                    break;
                }
            }
            let w = format!("[{}]", v.iter().map(|x| x.show()).collect::<Vec<_>>().join(", "));
            let want = (0..3).map(|k| (format!("call {k} with {n} variables, update {kind}, {}", exits[e].1), w.clone())).collect();
            run_items(format!("{t}r"), want, c)
        },
    )
}

/// Every exponent with a few mantissas, through every place a float can be kept.
fn representation(tier: Tier) -> Space<'static> {
    let mant: Vec<u64> = match tier {
        Tier::Quick => vec![0, 1, (1 << 52) - 1, 0x5555555555555],
        Tier::Thorough => vec![0, 1, 2, 3, 4, 7, 8, (1 << 52) - 1, (1 << 52) - 2, 0x5555555555555, 0xaaaaaaaaaaaaa, 1 << 51, (1 << 51) - 1, 1 << 48, 0x8000000000001],
    };
    let n = mant.len();
    Space::new("representation", format!("all 2047 finite exponents and both signs with {n} mantissas: kept in a variable, array, hash, instance variable, constant, closure, compared with the digits of the source text, negated, and read back"), 2047, move |i, c| {
        let mut t = String::from("r = []\n");
        let mut want = vec![];
        for m in &mant {
            for sign in [0u64, 1] {
                let x = f64::from_bits(sign << 63 | i << 52 | m);
                let l = F(x).lit();
                let s = ruby_float(x);
                t.push_str(&format!("x = {l}\nr << [x, [x][0], ({{ 1 => x }})[1], (@a = x), (-(-x)), x * 1.0, __id(x), -> {{ x }}.call, x.to_s.to_f, Struct.new(:q).new(x).q, [x].pack('E').unpack1('E'), Marshal.load(Marshal.dump(x)), ({{ x => x }})[x], [x, 1].max_by {{ 1 }}].map(&:to_s).uniq.join(' ')\n"));
                want.push((format!("float with bits {:016x}", x.to_bits()), s.clone()));
                t.push_str("r << [x].pack('G').unpack1('H*')\n");
                want.push((format!("bits of {s}"), format!("{:016x}", x.to_bits())));
            }
        }
        t.push_str("r.join('|')");
        run_items(t, want, c)
    })
}

pub fn plan(tier: Tier) -> Plan {
    let fs = floats(tier);
    let is = ints(tier);
    let all: Vec<N> = fs.iter().map(|x| F(*x)).chain(is.iter().map(|w| I(*w))).collect();
    let mut pairs = vec![];
    for x in &all {
        for y in &all {
            if x.is_float() || y.is_float() {
                pairs.push((*x, *y));
            }
        }
    }
    let n = pairs.len();
    let fsmall = (F(2.5), F(1.5));
    let ismall = (I(W::from(7)), F(2.0));
    let mut spaces = vec![];
    for (name, form, small, desc) in [
        ("var", Form::Vars, fsmall, "operands in variables; compiled for floats first"),
        ("var-int", Form::Vars, ismall, "operands in variables; compiled for an integer and a float first"),
        ("rlit", Form::RightLit, fsmall, "right operand a literal"),
        ("llit", Form::LeftLit, fsmall, "left operand a literal"),
        ("lit", Form::BothLit, fsmall, "both operands literals"),
        ("loop", Form::Loop, fsmall, "inside a loop that is compiled while it runs"),
    ] {
        let ops = binary();
        let pairs = pairs.clone();
        spaces.push(Space::new(format!("binary-{name}"), format!("{} binary operations on {n} pairs with at least one float, {desc}", ops.len()), n as u64, move |i, c| {
            let mut want = vec![];
            let p = program(&ops, form, small, pairs[i as usize], &mut want);
            run_items(p, want, c)
        }));
    }
    let m = fs.len();
    for (name, form) in [("var", Form::Vars), ("lit", Form::LeftLit), ("loop", Form::Loop)] {
        let ops = unary();
        let fs = fs.clone();
        spaces.push(Space::new(format!("unary-{name}"), format!("{} unary operations on {m} floats", ops.len()), m as u64, move |i, c| {
            let mut want = vec![];
            let p = program(&ops, form, (F(2.5), F(1.5)), (F(fs[i as usize]), F(1.5)), &mut want);
            run_items(p, want, c)
        }));
    }
    spaces.push(representation(tier));
    spaces.push(spill(tier));
    spaces.push(arms(1, 1));
    spaces.push(arms(2, 1));
    spaces.push(arms(1, 2));
    if tier == Tier::Thorough {
        spaces.push(arms(2, 2));
    }
    spaces.push(flow(2));
    spaces.push(flow(3));
    if tier == Tier::Thorough {
        spaces.push(flow(4));
    }
    Plan {
        prelude: format!("{SCHED}{}def __id(x) = x\n", num::TWO),
        rule: "every operation on every listed pair of numbers with at least one float, in every operand form and at every stage from interpreted to compiled, deoptimised and recompiled; all short loops over variables that change between integer and float; each answer is compared with IEEE double arithmetic and exact comparison".into(),
        spaces,
    }
}
