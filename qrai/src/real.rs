//! Symbolic numbers: rational functions of unknown quantities, represented by their values at
//! random points of the field of 2^61-1 elements. Two expressions are taken to be the same
//! function when their values agree at all points (Schwartz-Zippel: the chance of confusing two
//! different functions of degree d is below (d/2^61)^K). Rounding, truncating division and
//! narrowing are uninterpreted functions whose argument is kept.
use crate::val::{mask, sext, Bit, Dom, Op, Val, mk_bits};
use std::rc::Rc;

pub const P: u64 = (1 << 61) - 1;
pub const K: usize = 4;
pub type Pts = [u64; K];

#[derive(Clone, PartialEq, Debug)]
pub enum Form {
    Plain,
    /// uninterpreted function of a value
    App(&'static str, Rc<Real>),
}
#[derive(Clone, PartialEq, Debug)]
pub struct Real {
    pub p: Pts,
    pub form: Form,
    pub int: bool,
    /// bounds of integers
    pub b: Option<(i128, i128)>,
}

pub fn add(a: u64, b: u64) -> u64 {
    let s = a + b;
    if s >= P { s - P } else { s }
}
pub fn sub(a: u64, b: u64) -> u64 {
    if a >= b { a - b } else { a + P - b }
}
pub fn mul(a: u64, b: u64) -> u64 {
    ((a as u128 * b as u128) % P as u128) as u64
}
pub fn pow(mut a: u64, mut e: u64) -> u64 {
    let mut r = 1;
    while e > 0 {
        if e & 1 == 1 {
            r = mul(r, a);
        }
        a = mul(a, a);
        e >>= 1;
    }
    r
}
pub fn inv(a: u64) -> u64 {
    pow(a, P - 2)
}
fn hash(mut x: u64) -> u64 {
    x = x.wrapping_add(0x9e3779b97f4a7c15);
    x = (x ^ x >> 30).wrapping_mul(0xbf58476d1ce4e5b9);
    x = (x ^ x >> 27).wrapping_mul(0x94d049bb133111eb);
    x ^ x >> 31
}
fn apply(name: &str, args: &[&Real]) -> Pts {
    let mut r = [0; K];
    for k in 0..K {
        let mut h = hash(k as u64 + 77);
        for b in name.bytes() {
            h = hash(h ^ b as u64);
        }
        for a in args {
            for q in a.p {
                h = hash(h ^ q);
            }
        }
        r[k] = h % P;
    }
    r
}

/// unknown number `i`
pub fn atom(i: u64, int: bool, b: Option<(i128, i128)>) -> Real {
    let mut p = [0; K];
    for k in 0..K {
        p[k] = hash(hash(i + 1) ^ (k as u64) << 40) % P;
    }
    Real { p, form: Form::Plain, int, b }
}
pub fn int(v: i128) -> Real {
    let r = v.rem_euclid(P as i128) as u64;
    Real { p: [r; K], form: Form::Plain, int: true, b: Some((v, v)) }
}
pub fn float(f: f64) -> Option<Real> {
    if !f.is_finite() {
        return None;
    }
    let bits = f.to_bits();
    let e = (bits >> 52 & 0x7ff) as i64;
    let m = bits & ((1 << 52) - 1) | if e > 0 { 1 << 52 } else { 0 };
    let e = e.max(1) - 1075;
    let s = if e >= 0 { pow(2, e as u64) } else { inv(pow(2, (-e) as u64)) };
    let mut r = mul(m % P, s);
    if f < 0.0 {
        r = sub(0, r);
    }
    let b = if f.fract() == 0.0 && f.abs() < 1e18 { Some((f as i128, f as i128)) } else { None };
    Some(Real { p: [r; K], form: Form::Plain, int: b.is_some(), b })
}
fn wrap(r: Real) -> Val {
    Val::F(Rc::new(r))
}
pub fn app(name: &'static str, x: &Rc<Real>) -> Real {
    Real { p: apply(name, &[x]), form: Form::App(name, x.clone()), int: false, b: None }
}

pub fn rfn(name: &str, x: &Rc<Real>) -> Val {
    if x.int && x.b.is_some() && matches!(name, "round" | "floor" | "ceil" | "trunc" | "rint") {
        // rounding an integer
        return Val::F(x.clone());
    }
    let name: &'static str = match name {
        n if n.starts_with("round_ties") || n.starts_with("rint") => "round",
        n if n.starts_with("round") => "round",
        n if n.starts_with("floor") => "floor",
        n if n.starts_with("ceil") => "ceil",
        n if n.starts_with("trunc") => "trunc",
        n if n.starts_with("sqrt") => "sqrt",
        n if n.starts_with("fabs") => "fabs",
        _ => return Val::Top,
    };
    wrap(app(name, x))
}

pub fn neg(r: &Rc<Real>) -> Val {
    let mut p = r.p;
    for q in p.iter_mut() {
        *q = sub(0, *q);
    }
    wrap(Real { p, form: Form::Plain, int: r.int, b: r.b.map(|(l, h)| (-h, -l)) })
}
pub fn to_int(r: &Rc<Real>, signed: bool) -> Val {
    if !signed && r.b.map_or(true, |b| b.0 < 0) {
        // negative numbers become zero
        return wrap(Real { int: true, b: Some((0, u64::MAX as i128)), ..app("positive part", r) });
    }
    match &r.form {
        _ if r.int => Val::F(r.clone()),
        Form::App(n, _) if matches!(*n, "round" | "floor" | "ceil" | "trunc") => wrap(Real { int: true, ..(**r).clone() }),
        _ => wrap(Real { int: true, ..app("trunc", r) }),
    }
}

/// sum, difference, product or quotient as functions
pub fn arith(op: Op, x: &Real, y: &Real) -> Option<Real> {
    let mut p = [0; K];
    for k in 0..K {
        p[k] = match op {
            Op::Add => add(x.p[k], y.p[k]),
            Op::Sub => sub(x.p[k], y.p[k]),
            Op::Mul => mul(x.p[k], y.p[k]),
            Op::Div => {
                if y.p[k] == 0 {
                    return None;
                }
                mul(x.p[k], inv(y.p[k]))
            }
            _ => return None,
        };
    }
    let b = match (op, x.b, y.b) {
        (Op::Add, Some(a), Some(b)) => Some((a.0 + b.0, a.1 + b.1)),
        (Op::Sub, Some(a), Some(b)) => Some((a.0 - b.1, a.1 - b.0)),
        (Op::Mul, Some(a), Some(b)) => {
            let v: Option<Vec<i128>> = [(a.0, b.0), (a.0, b.1), (a.1, b.0), (a.1, b.1)].iter().map(|(x, y)| x.checked_mul(*y)).collect();
            v.map(|v| (*v.iter().min().unwrap(), *v.iter().max().unwrap()))
        }
        _ => None,
    };
    let b = b.filter(|(l, h)| *l > -(1i128 << 120) && *h < 1i128 << 120);
    Some(Real { p, form: Form::Plain, int: x.int && y.int && op != Op::Div, b: if op == Op::Div { None } else { b } })
}

/// the value of an expression that does not depend on the unknown integers
pub fn constant(r: &Real) -> Option<i64> {
    if !r.int || r.b.is_none() || r.p.iter().any(|q| *q != r.p[0]) {
        return None;
    }
    let c = if r.p[0] < P / 2 { r.p[0] as i64 } else { r.p[0] as i64 - P as i64 };
    if c.abs() < 1 << 58 { Some(c) } else { None }
}

/// truth of x - y = 0 as an unknown, the same for proportional differences
pub fn eq_atom(d: &Dom, x: &Real, y: &Real) -> Bit {
    let z = arith(Op::Sub, x, y).unwrap();
    if z.p.iter().all(|q| *q == 0) {
        return Bit::O;
    }
    if z.p[0] != 0 && z.p.iter().all(|q| *q == z.p[0]) {
        return Bit::Z; // a constant difference
    }
    if let (Some(a), Some(b)) = (x.b, y.b) {
        if a.1 < b.0 || b.1 < a.0 {
            return Bit::Z;
        }
    }
    let s = inv(z.p[0]);
    let key: Vec<u64> = z.p.iter().map(|q| mul(*q, s)).collect();
    Bit::atom(d.named(0, key))
}
pub fn lt_atom(d: &Dom, x: &Real, y: &Real) -> Bit {
    if x.p == y.p {
        return Bit::Z;
    }
    if let (Some(a), Some(b)) = (x.b, y.b) {
        if a.1 < b.0 {
            return Bit::O;
        }
        if a.0 >= b.1 {
            return Bit::Z;
        }
    }
    let z = arith(Op::Sub, x, y).unwrap();
    if x.int && y.int {
        if let Some(c) = constant(&z) {
            return if c < 0 { Bit::O } else { Bit::Z };
        }
        for r in [x, y] {
            if let (Form::Plain, Some(c)) = (&r.form, constant(r)) {
                d.cuts.borrow_mut().push(c);
            }
        }
    }
    Bit::atom(d.named(1, z.p.to_vec()))
}

fn compare(d: &Dom, op: Op, x: &Real, y: &Real) -> Val {
    let b = match op {
        Op::Eq => eq_atom(d, x, y),
        Op::Ne => eq_atom(d, x, y).not(),
        Op::Lt => lt_atom(d, x, y),
        Op::Gt => lt_atom(d, y, x),
        Op::Ge => lt_atom(d, x, y).not(),
        Op::Le => lt_atom(d, y, x).not(),
        _ => return Val::Top,
    };
    mk_bits(vec![b])
}

/// float operation
pub fn bin(d: &Dom, op: Op, x: &Val, y: &Val) -> Option<Val> {
    let f = |v: &Val| match v {
        Val::F(r) => Some((**r).clone()),
        Val::C(c) => float(f64::from_bits(*c)),
        _ => None,
    };
    let (a, b) = (f(x)?, f(y)?);
    if op.is_cmp() {
        return Some(compare(d, op, &a, &b));
    }
    arith(op, &a, &b).map(wrap)
}

/// machine integer operation
pub fn ibin(d: &Dom, op: Op, x: &Val, y: &Val, bits: u32, signed: bool) -> Val {
    let f = |v: &Val| match v {
        // an operation that takes the number as unsigned although it may be negative
        Val::F(r) if !signed && r.b.map_or(true, |b| b.0 < 0) && !matches!(op, Op::Eq | Op::Ne) => Some(Real { int: true, b: Some((0, mask(bits) as i128)), ..app("unsigned", r) }),
        Val::F(r) if signed && r.b.map_or(false, |b| b.1 >= 1i128 << (bits - 1)) => Some(Real { int: true, ..app("signed", r) }),
        Val::F(r) => Some((**r).clone()),
        Val::C(c) => Some(int(if signed { sext(*c, bits) as i128 } else { (*c & mask(bits)) as i128 })),
        _ => None,
    };
    let unknown = || if op.is_cmp() || matches!(op, Op::AddO | Op::SubO | Op::MulO) { Val::R(0, 1) } else { Val::Top };
    let (Some(a), Some(b)) = (f(x), f(y)) else { return unknown() };
    if op.is_cmp() {
        return compare(d, op, &a, &b);
    }
    let (lo, hi) = if signed { (-(1i128 << (bits - 1)), (1i128 << (bits - 1)) - 1) } else { (0, (1i128 << bits) - 1) };
    // unknowns that cancel out
    let arith = |op: Op, a: &Real, b: &Real| arith(op, a, b).map(|r| match constant(&r) { Some(c) => int(c as i128), None => r });
    let fits = |r: &Real| r.b.map_or(false, |(l, h)| l >= lo && h <= hi);
    match op {
        Op::AddO | Op::SubO | Op::MulO => {
            let o = match op { Op::AddO => Op::Add, Op::SubO => Op::Sub, _ => Op::Mul };
            match arith(o, &a, &b) {
                Some(r) if fits(&r) => Val::C(0),
                _ => Val::R(0, 1),
            }
        }
        Op::Add | Op::Sub | Op::Mul => match arith(op, &a, &b) {
            Some(r) if fits(&r) => match constant(&r) {
                Some(c) => Val::C(c as u64 & mask(bits)),
                None => wrap(r),
            },
            Some(r) => wrap(Real { b: Some((lo, hi)), form: Form::Plain, ..r }),
            None => Val::Top,
        },
        Op::Div => {
            if b.p.iter().all(|q| *q == 1) {
                return wrap(a);
            }
            let bound = a.b.map(|(l, h)| (l.min(-h).min(h.min(-l)), h.max(-l)));
            match arith(Op::Div, &a, &b) {
                Some(q) => wrap(Real { int: true, b: bound, ..app("trunc", &Rc::new(q)) }),
                None => Val::Top,
            }
        }
        Op::Rem => wrap(Real { p: apply("irem", &[&a, &b]), form: Form::Plain, int: true, b: b.b.map(|(l, h)| { let m = h.max(-l); (-m, m) }) }),
        Op::Cmp => {
            // -1, 0, 1
            let (lt, eq) = (lt_atom(d, &a, &b), eq_atom(d, &a, &b));
            match (lt.konst(), eq.konst()) {
                (Some(true), _) => Val::C(255),
                (_, Some(true)) => Val::C(0),
                (Some(false), Some(false)) => Val::C(1),
                _ => {
                    let v = mk_bits(vec![lt, eq]);
                    // (lt, eq) = (1, 1) does not occur; it is folded into "less"
                    d.map1(&v, |i| [1, 255, 0, 255][i as usize & 3], 8)
                }
            }
        }
        _ => Val::Top,
    }
}

/// conversion between integer widths; the number kept is the signed value where it may be negative
pub fn icast(r: &Rc<Real>, from: u32, to: u32, from_signed: bool) -> Val {
    match r.b {
        Some((l, h)) if l >= 0 && h < 1i128 << to => Val::F(r.clone()),
        Some((l, h)) if l >= -(1i128 << (to - 1)) && h < 1i128 << (to - 1) && from_signed => Val::F(r.clone()),
        _ if to >= from && from_signed => Val::F(r.clone()),
        // the same bits
        _ if to == from => Val::F(r.clone()),
        _ => wrap(Real { int: true, b: None, ..app(if to >= from { "widen" } else { "narrow" }, r) }),
    }
}

/// the value below narrowing conversions
pub fn strip(r: &Rc<Real>) -> Rc<Real> {
    match &r.form {
        Form::App("narrow" | "widen", x) => strip(x),
        _ => r.clone(),
    }
}

/// nearest-integer rounding of an expression: the expression
pub fn rounded(r: &Rc<Real>) -> Option<Real> {
    let half = float(0.5).unwrap();
    let r = strip(r);
    match &r.form {
        Form::App("round", x) => Some((**x).clone()),
        Form::App("floor", x) => arith(Op::Sub, x, &half),
        Form::App("ceil", x) => arith(Op::Add, x, &half),
        Form::Plain if r.int => Some((*r).clone()),
        _ => None,
    }
}
