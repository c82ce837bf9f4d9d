//! P20: integer arithmetic is exact at every size and in every execution mode.
//! P21: floating point arithmetic is IEEE in every execution mode.
use engine::*;
use std::cmp::Ordering;
use crate::wide::W;
use crate::*;

type F2 = Box<dyn Fn(W, W) -> String>;

fn b(x: bool) -> String {
    x.to_string()
}

/// Binary operators with their meaning.
fn binary() -> Vec<(&'static str, F2)> {
    fn it(f: impl Fn(W, W) -> String + 'static) -> F2 {
        Box::new(f)
    }
    fn div(f: impl Fn(W, W) -> String + 'static) -> F2 {
        Box::new(move |x, y| if y.is_zero() { "ZeroDivisionError".into() } else { f(x, y) })
    }
    use Ordering::*;
    vec![
        ("L + R", it(|x, y| x.add(y).to_string())),
        ("L - R", it(|x, y| x.sub(y).to_string())),
        ("L * R", it(|x, y| x.mul(y).to_string())),
        ("L / R", div(|x, y| x.divmod(y).0.to_string())),
        ("L % R", div(|x, y| x.divmod(y).1.to_string())),
        ("L & R", it(|x, y| x.and(y).to_string())),
        ("L | R", it(|x, y| x.or(y).to_string())),
        ("L ^ R", it(|x, y| x.xor(y).to_string())),
        ("L == R", it(|x, y| b(x == y))),
        ("L != R", it(|x, y| b(x != y))),
        ("L < R", it(|x, y| b(x.cmp(&y) == Less))),
        ("L <= R", it(|x, y| b(x.cmp(&y) != Greater))),
        ("L > R", it(|x, y| b(x.cmp(&y) == Greater))),
        ("L >= R", it(|x, y| b(x.cmp(&y) != Less))),
        ("L <=> R", it(|x, y| (x.cmp(&y) as i8).to_string())),
        ("L === R", it(|x, y| b(x == y))),
        ("L.eql?(R)", it(|x, y| b(x == y))),
        ("L.divmod(R)", div(|x, y| { let (q, r) = x.divmod(y); format!("[{q}, {r}]") })),
        ("L.div(R)", div(|x, y| x.divmod(y).0.to_string())),
        ("L.modulo(R)", div(|x, y| x.divmod(y).1.to_string())),
        ("L.remainder(R)", div(|x, y| x.quorem(y).1.to_string())),
        ("L.gcd(R)", it(|x, y| x.gcd(y).to_string())),
        ("L.lcm(R)", it(|x, y| if x.is_zero() || y.is_zero() { "0".into() } else { x.mul(y).abs().divmod(x.gcd(y)).0.to_string() })),
        ("L.ceildiv(R)", div(|x, y| x.neg().divmod(y).0.neg().to_string())),
        ("[L, R].max", it(|x, y| if x.cmp(&y) == Less { y } else { x }.to_string())),
        ("[L, R].min", it(|x, y| if x.cmp(&y) == Greater { y } else { x }.to_string())),
        ("L.hash == R.hash", it(|x, y| b(x == y))),
        ("({ L => 1 })[R]", it(|x, y| if x == y { "1".into() } else { "nil".into() })),
        ("(if L < R then 1 else 2 end)", it(|x, y| if x.cmp(&y) == Less { "1".into() } else { "2".into() })),
        ("(unless L >= R then 1 else 2 end)", it(|x, y| if x.cmp(&y) == Less { "1".into() } else { "2".into() })),
        ("(L == R ? 1 : 2)", it(|x, y| if x == y { "1".into() } else { "2".into() })),
        ("(L != R && L > R)", it(|x, y| b(x.cmp(&y) == Greater))),
        ("(z = L; z += R; z)", it(|x, y| x.add(y).to_string())),
        ("(z = L; z -= R; z)", it(|x, y| x.sub(y).to_string())),
        ("(z = L; z *= R; z)", it(|x, y| x.mul(y).to_string())),
        ("(@z = L; @z += R; @z)", it(|x, y| x.add(y).to_string())),
        ("(z = [L]; z[0] -= R; z)", it(|x, y| format!("[{}]", x.sub(y)))),
        ("(L + R) - L", it(|_, y| y.to_string())),
        ("(L - R) * (L + R)", it(|x, y| x.sub(y).mul(x.add(y)).to_string())),
        ("((L + 1) <=> R)", it(|x, y| (x.add(W::from(1)).cmp(&y) as i8).to_string())),
        ("L.pow(R.abs, 1000003)", it(|x, y| modpow(x, y.abs(), W::from(1000003)).to_string())),
        ("L.pow(3, R)", div(|x, y| modpow(x, W::from(3), y).to_string())),
        ("L.pow(0, R)", div(|x, y| modpow(x, W::from(0), y).to_string())),
        ("L.pow(R.abs, 1)", it(|_, _| "0".into())),
        ("(L..R).size", it(|x, y| { let d = y.sub(x); if d.is_neg() { "0".into() } else { d.add(W::from(1)).to_string() } })),
        ("L.between?(R, R + 3)", it(|x, y| b(x.cmp(&y) != Less && x.sub(y).cmp(&W::from(3)) != Greater))),
        ("L.clamp(R, R + 3)", it(|x, y| { let h = y.add(W::from(3)); if x.cmp(&y) == Less { y } else if x.cmp(&h) == Greater { h } else { x }.to_string() })),
        ("L.send(:+, R)", it(|x, y| x.add(y).to_string())),
        ("[L, R].sum", it(|x, y| x.add(y).to_string())),
        ("[L, R].inject(:*)", it(|x, y| x.mul(y).to_string())),
        ("L.coerce(R)", it(|x, y| format!("[{y}, {x}]"))),
        ("L.allbits?(R)", it(|x, y| b(x.and(y) == y))),
        ("L.anybits?(R)", it(|x, y| b(!x.and(y).is_zero()))),
        ("L.nobits?(R)", it(|x, y| b(x.and(y).is_zero()))),
    ]
}

fn modpow(x: W, e: W, m: W) -> W {
    let mut r = W::from(1).divmod(m).1;
    let mut p = x.divmod(m).1;
    for i in 0..e.bits() {
        if e.bit(i) {
            r = r.mul(p).divmod(m).1;
        }
        p = p.mul(p).divmod(m).1;
    }
    r
}

fn isqrt(x: W) -> W {
    let (mut lo, mut hi) = (W::from(0), W::from(1).shl(x.bits() / 2 + 1));
    while hi.sub(lo).cmp(&W::from(1)) == Ordering::Greater {
        let mid = lo.add(hi).shr(1);
        if mid.mul(mid).cmp(&x) == Ordering::Greater { hi = mid } else { lo = mid }
    }
    lo
}

fn rounded(x: W, unit: i128, mode: &str) -> W {
    let u = W::from(unit);
    let (q, r) = x.divmod(u);
    let down = q.mul(u);
    if r.is_zero() {
        return x;
    }
    let up = down.add(u);
    let twice = r.add(r).cmp(&u);
    match mode {
        "floor" => down,
        "ceil" => up,
        "truncate" => if x.is_neg() { up } else { down },
        "round" => match twice {
            Ordering::Less => down,
            Ordering::Greater => up,
            _ => if x.is_neg() { down } else { up },
        },
        "even" => match twice {
            Ordering::Less => down,
            Ordering::Greater => up,
            _ => if q.bit(0) { up } else { down },
        },
        _ => match twice {
            Ordering::Less => down,
            Ordering::Greater => up,
            _ => if x.is_neg() { up } else { down },
        },
    }
}

fn unary() -> Vec<(&'static str, F2)> {
    fn it(f: impl Fn(W) -> String + 'static) -> F2 {
        Box::new(move |x, _| f(x))
    }
    vec![
        ("-L", it(|x| x.neg().to_string())),
        ("+L", it(|x| x.to_string())),
        ("~L", it(|x| x.not().to_string())),
        ("L.abs", it(|x| x.abs().to_string())),
        ("L.magnitude", it(|x| x.abs().to_string())),
        ("L.succ", it(|x| x.add(W::from(1)).to_string())),
        ("L.next", it(|x| x.add(W::from(1)).to_string())),
        ("L.pred", it(|x| x.sub(W::from(1)).to_string())),
        ("L.even?", it(|x| b(!x.bit(0)))),
        ("L.odd?", it(|x| b(x.bit(0)))),
        ("L.zero?", it(|x| b(x.is_zero()))),
        ("L.positive?", it(|x| b(!x.is_zero() && !x.is_neg()))),
        ("L.negative?", it(|x| b(x.is_neg()))),
        ("L.bit_length", it(|x| if x.is_neg() { x.not() } else { x }.bits().to_string())),
        ("L.to_s(2)", it(|x| format!("{:?}", x.radix(2)))),
        ("L.to_s(16)", it(|x| format!("{:?}", x.radix(16)))),
        ("L.to_s(36)", it(|x| format!("{:?}", x.radix(36)))),
        ("L.to_s", it(|x| format!("{:?}", x.radix(10)))),
        ("L.to_s(7).to_i(7)", it(|x| x.to_string())),
        ("Integer(L.to_s)", it(|x| x.to_string())),
        ("L.digits rescue 0", it(|x| if x.is_neg() { "0".into() } else { format!("[{}]", x.radix(10).chars().rev().map(|c| c.to_string()).collect::<Vec<_>>().join(", ")) })),
        ("L.to_f", it(|x| ff(x.to_i128().unwrap() as f64))),
        ("Integer.sqrt(L.abs)", it(|x| isqrt(x.abs()).to_string())),
        ("L.floor(-1)", it(|x| rounded(x, 10, "floor").to_string())),
        ("L.ceil(-2)", it(|x| rounded(x, 100, "ceil").to_string())),
        ("L.truncate(-1)", it(|x| rounded(x, 10, "truncate").to_string())),
        ("L.round(-1)", it(|x| rounded(x, 10, "round").to_string())),
        ("L.round(-1, half: :even)", it(|x| rounded(x, 10, "even").to_string())),
        ("L.round(-1, half: :down)", it(|x| rounded(x, 10, "down").to_string())),
        ("-(-L)", it(|x| x.to_string())),
        ("L * L", it(|x| x.mul(x).to_string())),
        ("L + L", it(|x| x.add(x).to_string())),
        ("L - L", it(|_| "0".into())),
        ("L == L", it(|_| "true".into())),
        ("(L ? 1 : 2)", it(|_| "1".into())),
        ("!L", it(|_| "false".into())),
        ("L.integer?", it(|_| "true".into())),
        ("L.class", it(|_| "Integer".into())),
        ("L.dup", it(|x| x.to_string())),
        ("L.numerator", it(|x| x.to_string())),
        ("L.to_r", it(|x| format!("({x}/1)"))),
        ("L.frozen?", it(|_| "true".into())),
    ]
}

fn ff(x: f64) -> String {
    ruby_float(x)
}

fn values(tier: Tier) -> Vec<W> {
    let p = |n: u32| 1i128 << n;
    let mut v: Vec<i128> = vec![
        0, 1, -1, 2, -2, 3, -7, 10, -10, 255,
        p(31) - 1, -p(31), p(32), p(53) + 1,
        p(61), p(62) - 1, p(62), p(62) + 1, -p(62), -p(62) - 1, 1 - p(62),
        p(63) - 1, p(63), -p(63), -p(63) - 1, p(64) - 1, p(64), -p(64), 10i128.pow(20), -(3 * p(70)),
    ];
    if tier == Tier::Thorough {
        v.extend([
            -3, 5, 7, -255, 15, -16, p(31), -p(31) - 1, p(32) - 1, -p(32), p(53) - 1, -p(53) - 1, p(61) - 1, -p(61), -p(61) - 1,
            p(62) - 2, p(63) + 1, -p(63) + 1, p(64) + 1, -p(64) - 1, -p(64) + 1, p(96), p(100) - 1, -p(100), -(10i128.pow(20)), 3037000499, 3037000500, -3037000500,
        ]);
    }
    v.into_iter().map(W::from).collect()
}

#[derive(Clone, Copy)]
enum Form {
    Vars,
    RightLit,
    LeftLit,
    BothLit,
    Loop,
}

fn lit(x: &W) -> String {
    if x.is_neg() { format!("({x})") } else { format!("{x}") }
}

/// A program that evaluates all `ops` on one pair of numbers.
fn program(ops: &[(&str, F2)], form: Form, s: (W, W), v: (W, W), want: &mut Vec<(String, String)>) -> String {
    let mut p = String::from("r = []\n");
    for (i, (op, f)) in ops.iter().enumerate() {
        let (l, r, s) = match form {
            Form::Vars | Form::Loop => ("a".to_string(), "b".to_string(), s),
            Form::RightLit => ("a".to_string(), lit(&v.1), (s.0, v.1)),
            Form::LeftLit => (lit(&v.0), "b".to_string(), (v.0, s.1)),
            Form::BothLit => (lit(&v.0), lit(&v.1), v),
        };
        let e = op.replace('L', &l).replace('R', &r);
        let e = if l != "a" || r != "b" { e.replace("(-", "(-") } else { e };
        match form {
            Form::Loop => p.push_str(&format!(
                "def f{i}(a, b)\n i = 0\n z = nil\n y = nil\n while i < 104\n  y = {e}\n  i += 1\n end\n y\nend\nr << __two({}, {}, {}, {}) {{ |a, b| f{i}(a, b) }}\n",
                s.0, s.1, v.0, v.1
            )),
            _ => p.push_str(&format!(
                "def f{i}(a, b)\n {e}\nend\nr << __sched({}, {}, {}, {}) {{ |a, b| f{i}(a, b) }}\n",
                s.0, s.1, v.0, v.1
            )),
        }
        want.push((format!("{e} with a={} b={} and a={} b={}", s.0, s.1, v.0, v.1), format!("{} {}", f(s.0, s.1), f(v.0, v.1))));
    }
    p.push_str("r.join('|').delete('\"')\n");
    p
}

pub const TWO: &str = r##"
def __two(sa, sb, va, vb)
  fs = fv = nil
  k = 0
  while k < 6
    small = k == 0 || k == 3 || k == 4
    r = begin
      (small ? yield(sa, sb) : yield(va, vb)).inspect
    rescue Exception => e
      e.class.to_s
    end
    if small
      fs = r if fs.nil?
      return "#{fs} but #{r} on call #{k}" if fs != r
    else
      fv = r if fv.nil?
      return "#{fv} but #{r} on call #{k}" if fv != r
    end
    k += 1
  end
  "#{fs} #{fv}"
end
"##;

fn ints(tier: Tier) -> Vec<Space<'static>> {
    let v = values(tier);
    let n = v.len();
    let small = (W::from(7), W::from(2));
    let mut spaces = vec![];
    for (name, form, desc) in [
        ("var", Form::Vars, "operands in variables; compiled for small numbers first"),
        ("rlit", Form::RightLit, "right operand a literal"),
        ("llit", Form::LeftLit, "left operand a literal"),
        ("lit", Form::BothLit, "both operands literals"),
        ("loop", Form::Loop, "inside a loop that is compiled while it runs"),
    ] {
        let v = v.clone();
        let ops = binary();
        spaces.push(Space::new(
            format!("binary-{name}"),
            format!("all {} binary operations on all {n}x{n} pairs, {desc}", ops.len()),
            (n * n) as u64,
            move |i, c| {
                let mut x = Radix(i);
                let (p, q) = (v[x.take(n)], v[x.take(n)]);
                let mut want = vec![];
                let p = program(&ops, form, small, (p, q), &mut want);
                run_items(p, want, c)
            },
        ));
    }
    {
        // compiled for large numbers first, small ones afterwards
        let v = v.clone();
        let ops = binary();
        spaces.push(Space::new(
            "binary-big-first",
            format!("all {} binary operations on all pairs, compiled for the pair first and for small numbers later", ops.len()),
            (n * n) as u64,
            move |i, c| {
                let mut x = Radix(i);
                let (p, q) = (v[x.take(n)], v[x.take(n)]);
                let mut want = vec![];
                let p = program(&ops, Form::Vars, (p, q), small, &mut want);
                run_items(p, want, c)
            },
        ));
    }
    for (name, form) in [("var", Form::Vars), ("lit", Form::BothLit), ("loop", Form::Loop)] {
        let v = v.clone();
        let ops = unary();
        spaces.push(Space::new(
            format!("unary-{name}"),
            format!("all {} unary operations on all {n} numbers", ops.len()),
            n as u64,
            move |i, c| {
                let mut want = vec![];
                let p = program(&ops, form, small, (v[i as usize], W::from(1)), &mut want);
                run_items(p, want, c)
            },
        ));
    }
    {
        let shifts: Vec<i128> = vec![0, 1, 2, 3, 30, 31, 32, 33, 60, 61, 62, 63, 64, 65, 100, 128, -1, -2, -30, -61, -62, -63, -64, -65, -128];
        fn shl(x: W, n: i128) -> W {
            if n >= 0 { x.shl(n as usize) } else { x.shr(-n as usize) }
        }
        let v = v.clone();
        let m = shifts.len();
        for (name, form) in [("var", Form::Vars), ("rlit", Form::RightLit), ("llit", Form::LeftLit), ("loop", Form::Loop)] {
            let shifts = shifts.clone();
            let v = v.clone();
            let ops: Vec<(&str, F2)> = vec![
                ("L << R", Box::new(|x, y| shl(x, y.to_i128().unwrap()).to_string())),
                ("L >> R", Box::new(|x, y| shl(x, -y.to_i128().unwrap()).to_string())),
                ("(z = L; z <<= R; z)", Box::new(|x, y| shl(x, y.to_i128().unwrap()).to_string())),
                ("L[R]", Box::new(|x, y| if y.is_neg() { "0".into() } else { (x.bit(y.0[0] as usize) as u8).to_string() })),
            ];
            spaces.push(Space::new(format!("shift-{name}"), format!("shifts and bit references of {n} numbers by {m} distances"), (n * m) as u64, move |i, c| {
                let mut x = Radix(i);
                let (p, q) = (v[x.take(n)], W::from(shifts[x.take(m)]));
                let mut want = vec![];
                let p = program(&ops, form, small, (p, q), &mut want);
                run_items(p, want, c)
            }));
        }
    }
    {
        let exps: Vec<i128> = vec![0, 1, 2, 3, 4, 5, 7, 8, 30, 31, 61, 62, 63, 64, 65, 127, -1, -2, -3, -64];
        let m = exps.len();
        let v = v.clone();
        let pairs: Vec<(W, W)> = v
            .iter()
            .flat_map(|x| exps.iter().map(move |e| (*x, W::from(*e))))
            .filter(|(x, e)| x.abs().bits() * (e.abs().0[0] as usize) < 480)
            .collect();
        for (name, form) in [("var", Form::Vars), ("rlit", Form::RightLit), ("llit", Form::LeftLit), ("loop", Form::Loop)] {
            let pairs = pairs.clone();
            fn pow(x: W, e: W) -> String {
                if !e.is_neg() {
                    return x.pow(e.0[0] as usize).to_string();
                }
                if x.is_zero() {
                    return "ZeroDivisionError".into();
                }
                if x.abs() == W::from(1) {
                    // a unit stays an Integer whatever the exponent
                    return x.pow(e.abs().0[0] as usize).to_string();
                }
                let d = x.pow(e.abs().0[0] as usize);
                if d.is_neg() { format!("(-1/{})", d.abs()) } else { format!("(1/{d})") }
            }
            let ops: Vec<(&str, F2)> = vec![
                ("L ** R", Box::new(pow)),
                ("L.pow(R)", Box::new(pow)),
                ("(z = L; z **= R; z)", Box::new(pow)),
            ];
            spaces.push(Space::new(format!("power-{name}"), format!("powers of {n} numbers with {m} exponents"), pairs.len() as u64, move |i, c| {
                let mut want = vec![];
                let p = program(&ops, form, small, pairs[i as usize], &mut want);
                run_items(p, want, c)
            }));
        }
    }
    {
        // accumulation across the boundary of the immediate representation inside a compiled loop
        let v = v.clone();
        spaces.push(Space::new("accumulate", "sums, differences, doublings and countdowns that cross the boundaries inside a running loop, all pairs", (n * n) as u64, move |i, c| {
            let mut x = Radix(i);
            let (p, q) = (v[x.take(n)], v[x.take(n)]);
            let k = |m: i128| W::from(m);
            let mut want = vec![];
            let mut t = String::from("r = []\n");
            let items: Vec<(&str, W)> = vec![
                ("s += b", p.add(q.mul(k(130)))),
                ("s -= b", p.sub(q.mul(k(130)))),
                ("s = b - s", p),
                ("s = s + s", p.mul(k(1).shl(130))),
                ("s <<= 1", p.mul(k(1).shl(130))),
                ("s = s + b if i.odd?", p.add(q.mul(k(65)))),
                ("s = (i < 100 ? s + 1 : s + b)", p.add(k(100)).add(q.mul(k(30)))),
                ("s = [s].map { |t| t + b }[0]", p.add(q.mul(k(130)))),
                ("1.times { s += b }", p.add(q.mul(k(130)))),
            ];
            for (j, (e, w)) in items.iter().enumerate() {
                t.push_str(&format!("def g{j}(a, b)\n i = 0\n s = a\n while i < 130\n  {e}\n  i += 1\n end\n s\nend\nr << g{j}({p}, {q}) << g{j}({p}, {q})\n"));
                want.push((format!("130 times {e} from {p} with {q}"), w.to_string()));
                want.push((format!("second run: 130 times {e} from {p} with {q}"), w.to_string()));
            }
            t.push_str("r.join('|')");
            run_items(t, want, c)
        }));
    }
    spaces
}

pub fn integers(tier: Tier) -> Plan {
    Plan {
        prelude: format!("{SCHED}{TWO}"),
        rule: "every operation on every pair of the listed numbers, in every operand form and at every stage from interpreted to compiled, deoptimised and recompiled; each answer is compared with 512-bit reference arithmetic".into(),
        spaces: ints(tier),
    }
}
