//! Plane geometry: perspective transforms, line intersection, sampling of detected grids.
//! Coordinates are unknown numbers, results are compared as rational functions of them.
use super::decode::stats;
use super::*;
use crate::real::{self, Real, K, P};
use std::rc::Rc;

type In = Box<dyn FnMut(u64, u64) -> Option<Val>>;

const LIM: i128 = 1 << 16;

/// unknown coordinates (0..) and reals (100..)
fn ix(i: u64) -> Real {
    real::atom(i, true, Some((-LIM, LIM)))
}
fn rx(i: u64) -> Real {
    real::atom(100 + i, false, None)
}
fn fv(r: Real) -> Val {
    Val::F(Rc::new(r))
}
fn unknown_in() -> In {
    Box::new(|t, i| match t {
        80 => Some(fv(ix(i))),
        81 => Some(fv(rx(i))),
        _ => None,
    })
}
fn fixed_in(ints: Vec<i64>, reals: Vec<f64>) -> In {
    Box::new(move |t, i| match t {
        80 => ints.get(i as usize).map(|v| Val::C(*v as u64)),
        81 => reals.get(i as usize).map(|v| Val::C(v.to_bits())),
        _ => None,
    })
}

impl<'tcx> Bench<'tcx> {
    fn go(&self, entry: &str, args: &[u64], mut f: In) -> Result<Vec<(State<'tcx>, Outcome)>, String> {
        self.run(
            entry,
            args.iter().map(|a| Val::C(*a)).collect(),
            Box::new(move |_, _, tag, a, _| match a {
                Val::C(a) => f(tag, a).ok_or_else(|| format!("unexpected input {tag}.{a}")),
                _ => Err("abstract selector".into()),
            }),
        )
    }
    /// the single outcome of a run on known numbers: None for a panic or no result
    fn known(&self, entry: &str, args: &[u64], f: In) -> Result<Known, String> {
        let o = self.go(entry, args, f)?;
        let [(st, o)] = &o[..] else { return Err(format!("{} outcomes", o.len())) };
        let out = |t: u64| -> Vec<i64> { st.outs(t).concat().iter().map(|v| if let Val::C(c) = v { *c as i64 } else { i64::MIN }).collect() };
        match o {
            Outcome::Return(Val::C(c)) => Ok(Known { code: Some(*c), at: String::new(), p: out(82), bit: out(84) }),
            Outcome::Panic { msg, at, func } => Ok(Known { code: None, at: format!("{at} ({func}): {msg}"), p: vec![], bit: vec![] }),
            o => Err(format!("{o:?}")),
        }
    }
}
struct Known {
    code: Option<u64>,
    at: String,
    p: Vec<i64>,
    bit: Vec<i64>,
}

fn rngi(r: &mut Rng, lo: i64, hi: i64) -> i64 {
    lo + (r.next() % (hi - lo + 1) as u64) as i64
}

/// convex quadrangles, clockwise on the screen, and a rectangle to be sent there
fn quads(n: usize, seed: u64) -> Vec<(Vec<i64>, [f64; 2])> {
    let mut r = Rng(seed);
    let mut v = vec![];
    while v.len() < n {
        let s = [20i64, 60, 200, 1000, 5000][r.next() as usize % 5];
        let j = s / 4;
        let (ox, oy) = (rngi(&mut r, -s, 2 * s), rngi(&mut r, -s, 2 * s));
        let mut q: Vec<(i64, i64)> = [(0, 0), (s, 0), (s, s), (0, s)].iter().map(|(x, y)| (ox + x + rngi(&mut r, -j, j), oy + y + rngi(&mut r, -j, j))).collect();
        let k = r.next() as usize % 4;
        q.rotate_left(k);
        // an affine image every now and then
        if r.next() % 4 == 0 {
            q[2] = (q[1].0 + q[3].0 - q[0].0, q[1].1 + q[3].1 - q[0].1);
        }
        // strictly convex
        let cross = |a: (i64, i64), b: (i64, i64), c: (i64, i64)| (b.0 - a.0) * (c.1 - a.1) - (b.1 - a.1) * (c.0 - a.0);
        if !(0..4).all(|i| cross(q[i], q[(i + 1) % 4], q[(i + 2) % 4]) > s * s / 8) {
            continue;
        }
        let n = if r.next() % 3 == 0 { 7.0 } else { (r.next() % 40) as f64 * 4.0 + 14.0 };
        let w = if r.next() % 5 == 0 { n + 3.0 } else { n };
        v.push((q.iter().flat_map(|p| [p.0, p.1]).collect(), [w, n]));
    }
    v
}

/// the homography with these images of the corners of (0,0)..(w,h), applied to (u,v), in f64
fn hom(q: &[i64], s: [f64; 2], u: f64, v: f64) -> Option<(f64, f64)> {
    let mut m = vec![vec![0.0f64; 9]; 8];
    for (i, (a, b)) in [(0.0, 0.0), (s[0], 0.0), (s[0], s[1]), (0.0, s[1])].iter().enumerate() {
        let (x, y) = (q[2 * i] as f64, q[2 * i + 1] as f64);
        m[2 * i] = vec![*a, *b, 1.0, 0.0, 0.0, 0.0, -a * x, -b * x, x];
        m[2 * i + 1] = vec![0.0, 0.0, 0.0, *a, *b, 1.0, -a * y, -b * y, y];
    }
    for i in 0..8 {
        let p = (i..8).max_by(|a, b| m[*a][i].abs().partial_cmp(&m[*b][i].abs()).unwrap())?;
        m.swap(i, p);
        if m[i][i].abs() < 1e-12 {
            return None;
        }
        for j in 0..8 {
            if j != i {
                let f = m[j][i] / m[i][i];
                for k in i..9 {
                    m[j][k] -= f * m[i][k];
                }
            }
        }
    }
    let c: Vec<f64> = (0..8).map(|i| m[i][8] / m[i][i]).collect();
    let d = c[6] * u + c[7] * v + 1.0;
    Some(((c[0] * u + c[1] * v + c[2]) / d, (c[3] * u + c[4] * v + c[5]) / d))
}

/// the same over the field, at every evaluation point
fn fhom(q: &[Real], w: &Real, h: &Real, u: &Real, v: &Real) -> Option<[Real; 2]> {
    let mut o = [[0u64; K]; 2];
    for k in 0..K {
        let mut m = vec![vec![0u64; 9]; 8];
        let (w, h) = (w.p[k], h.p[k]);
        for (i, (a, b)) in [(0, 0), (w, 0), (w, h), (0, h)].iter().enumerate() {
            let (x, y) = (q[2 * i].p[k], q[2 * i + 1].p[k]);
            let n = |a: u64, x: u64| real::sub(0, real::mul(a, x));
            m[2 * i] = vec![*a, *b, 1, 0, 0, 0, n(*a, x), n(*b, x), x];
            m[2 * i + 1] = vec![0, 0, 0, *a, *b, 1, n(*a, y), n(*b, y), y];
        }
        for i in 0..8 {
            let p = (i..8).find(|p| m[*p][i] != 0)?;
            m.swap(i, p);
            let f = real::inv(m[i][i]);
            for c in i..9 {
                m[i][c] = real::mul(m[i][c], f);
            }
            for j in 0..8 {
                if j != i {
                    let f = m[j][i];
                    for c in i..9 {
                        m[j][c] = real::sub(m[j][c], real::mul(f, m[i][c]));
                    }
                }
            }
        }
        let c: Vec<u64> = (0..8).map(|i| m[i][8]).collect();
        let (u, v) = (u.p[k], v.p[k]);
        let lin = |a: u64, b: u64, c: u64| real::add(real::add(real::mul(a, u), real::mul(b, v)), c);
        let d = real::inv(lin(c[6], c[7], 1));
        o[0][k] = real::mul(lin(c[0], c[1], c[2]), d);
        o[1][k] = real::mul(lin(c[3], c[4], c[5]), d);
    }
    let _ = P;
    Some(o.map(|p| Real { p, form: real::Form::Plain, int: false, b: None }))
}

fn as_real(v: &Val) -> Option<Rc<Real>> {
    match v {
        Val::F(r) => Some(r.clone()),
        Val::C(c) => Some(Rc::new(real::int(*c as i64 as i128))),
        _ => None,
    }
}
/// is it the rounded value of this expression?
fn is_rounded(v: &Val, want: &Real) -> bool {
    as_real(v).and_then(|r| real::rounded(&r)).map_or(false, |r| r.p == want.p)
}

/// every path that returns a result returns the rounded expressions; None: holds
fn mapped<'tcx>(outs: &[(State<'tcx>, Outcome)], want: &[Real; 2]) -> Option<String> {
    let mut some = 0;
    for (st, o) in outs {
        match o {
            Outcome::Return(Val::C(0)) => {
                some += 1;
                let p = st.outs(82).concat();
                if p.len() != 2 || !is_rounded(&p[0], &want[0]) || !is_rounded(&p[1], &want[1]) {
                    return Some("the result is not the rounded expected expression".into());
                }
            }
            // nothing accepted, or refused because the result does not fit the coordinate type
            Outcome::Return(Val::C(1)) | Outcome::Panic { .. } => {}
            o => return Some(format!("{o:?}")),
        }
    }
    if some == 0 { Some("no path returns a result".into()) } else { None }
}

fn quad_text(q: &[i64], s: [f64; 2]) -> String {
    format!("corners ({},{}) ({},{}) ({},{}) ({},{}), rectangle {} by {}", q[0], q[1], q[2], q[3], q[4], q[5], q[6], q[7], s[0], s[1])
}

pub fn c22<'tcx>(tcx: TyCtxt<'tcx>, job: &Job, rep: &mut Report) {
    let mut b = Bench::new(tcx, job);
    b.e.cfg.no_join = true;
    for i in 0..4usize {
        if !job.mine(i + 1) {
            continue;
        }
        b.fresh();
        let name = ["(0,0)", "(w,0)", "(w,h)", "(0,h)"][i];
        let want = [ix(2 * i as u64), ix(2 * i as u64 + 1)];
        let why = match b.go("__vg::h_corner", &[i as u64], unknown_in()) {
            Err(e) => Some(e),
            Ok(o) => {
                rep.count("partitions", o.len() as u64);
                mapped(&o, &want)
            }
        };
        let Some(why) = why else {
            rep.ok();
            continue;
        };
        // is there a rectangle for which it is wrong?
        let mut bad = None;
        let mut accepted = 0;
        for (q, s) in quads(400, 77) {
            b.fresh();
            rep.count("alarms_examined", 1);
            match b.known("__vg::h_corner", &[i as u64], fixed_in(q.clone(), s.to_vec())) {
                Ok(k) if k.code == Some(0) => {
                    accepted += 1;
                    if (k.p[0] - q[2 * i]).abs() > 0 || (k.p[1] - q[2 * i + 1]).abs() > 0 {
                        // rounding of the transform's coefficients could at most move it by one
                        let far = (k.p[0] - q[2 * i]).abs() > 1 || (k.p[1] - q[2 * i + 1]).abs() > 1;
                        bad = Some(format!("{}: {name} is sent to ({},{})", quad_text(&q, s), k.p[0], k.p[1]));
                        if far {
                            break;
                        }
                    }
                }
                _ => {}
            }
        }
        match bad {
            Some(t) => rep.violation_with("geometry::Perspective::create/map", &format!("corner {name} of the rectangle is not sent to the given point: {why}"), &t),
            None => rep.undecided(&format!("corner {name}: {why} ({accepted} rectangles tried)")),
        }
    }
    stats(&b, rep);
}

pub fn c23<'tcx>(tcx: TyCtxt<'tcx>, job: &Job, rep: &mut Report) {
    let mut b = Bench::new(tcx, job);
    b.e.cfg.no_join = true;
    b.fresh();
    let why = match b.go("__vg::h_unmap", &[], unknown_in()) {
        Err(e) => Some(e),
        Ok(o) => {
            rep.count("partitions", o.len() as u64);
            mapped(&o, &[ix(8), ix(9)])
        }
    };
    if let Some(why) = why {
        let mut bad = None;
        let mut r = Rng(5);
        for (q, s) in quads(400, 78) {
            b.fresh();
            rep.count("alarms_examined", 1);
            // a point inside
            let (u, v) = ((r.next() % 1000) as f64 / 1000.0 * s[0], (r.next() % 1000) as f64 / 1000.0 * s[1]);
            let Some((x, y)) = hom(&q, s, u, v) else { continue };
            let (x, y) = (x.round() as i64, y.round() as i64);
            let mut ints = q.clone();
            ints.extend([x, y]);
            if let Ok(k) = b.known("__vg::h_unmap", &[], fixed_in(ints, s.to_vec())) {
                if k.code == Some(0) && ((k.p[0] - x).abs() > 1 || (k.p[1] - y).abs() > 1) {
                    bad = Some(format!("{}: point ({x},{y}) comes back as ({},{})", quad_text(&q, s), k.p[0], k.p[1]));
                    break;
                }
            }
        }
        match bad {
            Some(t) => rep.violation_with("geometry::Perspective::unmap/map", &format!("mapping an unmapped point does not give the point: {why}"), &t),
            None => rep.undecided(&format!("unmap: {why}")),
        }
    } else {
        rep.ok();
    }
    stats(&b, rep);
}

fn or(d: &Dom, v: &[Val]) -> Val {
    v.iter().fold(Val::C(0), |a, b| d.binop(Op::Or, &a, b, 1, false))
}

pub fn c24<'tcx>(tcx: TyCtxt<'tcx>, job: &Job, rep: &mut Report) {
    let mut b = Bench::new(tcx, job);
    b.e.cfg.no_join = true;
    b.fresh();
    let c: Vec<Real> = (0..8).map(ix).collect();
    let f = |op, a: &Real, b: &Real| real::arith(op, a, b).unwrap();
    let sub = |a: usize, b: usize| f(Op::Sub, &c[a], &c[b]);
    // directions, and the cross products of each line
    let (dx1, dy1, dx2, dy2) = (sub(2, 0), sub(3, 1), sub(6, 4), sub(7, 5));
    let cr = |a: usize| f(Op::Sub, &f(Op::Mul, &c[a], &c[a + 3]), &f(Op::Mul, &c[a + 1], &c[a + 2]));
    let (n1, n2) = (cr(0), cr(4));
    let det = f(Op::Sub, &f(Op::Mul, &dx1, &dy2), &f(Op::Mul, &dy1, &dx2));
    // p = (n1 * d2 - n2 * d1) / -det
    let num = |a: &Real, b: &Real| f(Op::Sub, &f(Op::Mul, &n2, a), &f(Op::Mul, &n1, b));
    let want: Vec<Real> = [num(&dx1, &dx2), num(&dy1, &dy2)].iter().map(|n| real::app("trunc", &Rc::new(f(Op::Div, n, &det)))).collect();
    let d = &b.e.dom;
    let parallel = mk_bits(vec![real::eq_atom(d, &det, &real::int(0))]);
    let far: Vec<Val> = want
        .iter()
        .flat_map(|w| [mk_bits(vec![real::lt_atom(d, w, &real::int(i32::MIN as i128))]), mk_bits(vec![real::lt_atom(d, &real::int(i32::MAX as i128), w)])])
        .collect();
    let mut nothing = far.clone();
    nothing.push(parallel.clone());
    let nothing = or(d, &nothing);
    let why = (|| {
        let outs = b.go("__vg::h_line", &[], unknown_in())?;
        rep.count("partitions", outs.len() as u64);
        let (mut some, mut none) = (0, 0);
        for (st, o) in &outs {
            match o {
                Outcome::Return(Val::C(0)) => {
                    some += 1;
                    if crate::guard::decide(d, &st.guard, &parallel) != Some(false) {
                        return Err("a point may be reported for parallel lines".to_string());
                    }
                    if far.iter().any(|f| crate::guard::decide(d, &st.guard, f) != Some(false)) {
                        return Err("a point that does not fit the coordinate type may be reported".to_string());
                    }
                    let p = st.outs(82).concat();
                    for k in 0..2 {
                        let got = as_real(&p[k]).ok_or("the point is not tracked")?;
                        if real::strip(&got).p != want[k].p {
                            return Err(format!("the {} coordinate is not the truncated quotient", ["first", "second"][k]));
                        }
                    }
                }
                Outcome::Return(Val::C(1)) => {
                    none += 1;
                    if crate::guard::decide(d, &st.guard, &nothing) != Some(true) {
                        return Err("nothing may be reported for lines that meet".to_string());
                    }
                }
                o => return Err(format!("{o:?}")),
            }
        }
        if some == 0 || none == 0 {
            return Err("one kind of result is never returned".to_string());
        }
        Ok(())
    })();
    if let Err(why) = why {
        let mut r = Rng(9);
        let mut bad = None;
        let t0 = b.e.stats.borrow().steps;
        for t in 0..6000u64 {
            let m = [3i64, 10, 100, 3000, 65536][t as usize % 5];
            let mut q: Vec<i64> = (0..8).map(|_| rngi(&mut r, -m, m)).collect();
            match r.next() % 8 {
                0 => (0..8).for_each(|i| q[i] = [-m, m, 0, m - 1, 1 - m, 1, -1, m / 2][r.next() as usize % 8]),
                // parallel, and nearly so
                k @ 1..=3 => {
                    q[6] = q[4] + q[2] - q[0];
                    q[7] = q[5] + q[3] - q[1];
                    if k == 3 {
                        let i = 4 + r.next() as usize % 4;
                        q[i] += rngi(&mut r, -1, 1);
                    }
                }
                4 => q[2] = q[0],
                5 => q[7] = q[5],
                _ => {}
            }
            if q.iter().any(|v| v.abs() as i128 > LIM) {
                continue;
            }
            b.fresh();
            rep.count("alarms_examined", 1);
            let z: Vec<i128> = q.iter().map(|v| *v as i128).collect();
            let det = (z[2] - z[0]) * (z[7] - z[5]) - (z[3] - z[1]) * (z[6] - z[4]);
            let (n1, n2) = (z[0] * z[3] - z[1] * z[2], z[4] * z[7] - z[5] * z[6]);
            let want = if det == 0 {
                None
            } else {
                let x = (n2 * (z[2] - z[0]) - n1 * (z[6] - z[4])) / det;
                let y = (n2 * (z[3] - z[1]) - n1 * (z[7] - z[5])) / det;
                if i32::try_from(x).is_ok() && i32::try_from(y).is_ok() { Some((x as i64, y as i64)) } else { None }
            };
            if let Ok(k) = b.known("__vg::h_line", &[], fixed_in(q.clone(), vec![])) {
                let got = if k.code == Some(0) { Some((k.p[0], k.p[1])) } else { None };
                if k.code.is_none() || got != want {
                    let what = if k.code.is_none() { format!("stops at {}", k.at) } else { format!("gives {got:?} instead of {want:?}") };
                    bad = Some((k.at, format!("lines ({},{})-({},{}) and ({},{})-({},{}): {what}", q[0], q[1], q[2], q[3], q[4], q[5], q[6], q[7])));
                    break;
                }
            }
            if b.e.stats.borrow().steps - t0 > 3_000_000 {
                break;
            }
        }
        match bad {
            Some((at, t)) => rep.violation_with(if at.is_empty() { "geometry::line_intersect" } else { &at }, &format!("intersection of two lines: {why}"), &t),
            None => rep.undecided(&format!("line_intersect: {why}")),
        }
    } else {
        rep.ok();
    }
    stats(&b, rep);
}

pub fn c25<'tcx>(tcx: TyCtxt<'tcx>, job: &Job, rep: &mut Report) {
    let mut b = Bench::new(tcx, job);
    b.e.cfg.no_join = true;
    let sizes: &[(u64, u64)] = &[(1, 1), (1, 7), (40, 1), (20, 12), (33, 40), (130, 2), (3, 70_000), (70_000, 2)];
    for (si, (w, h)) in sizes.iter().enumerate() {
        if !job.mine(si % 8 + 1) {
            continue;
        }
        // 1. where is it read, for an unknown perspective and an unknown module
        b.fresh();
        let n = 21 + 4 * si as u64;
        let d = &b.e.dom;
        let q: Vec<Real> = (0..8).map(ix).collect();
        let half = real::float(0.5).unwrap();
        let plus = |i: u64| real::arith(Op::Add, &real::atom(i, true, Some((0, 176))), &half).unwrap();
        let want = fhom(&q, &rx(0), &rx(1), &plus(8), &plus(9)).unwrap();
        let inp: In = Box::new(|t, i| match t {
            80 if i >= 8 => Some(fv(real::atom(i, true, Some((0, 176))))),
            80 => Some(fv(ix(i))),
            81 => Some(fv(rx(i))),
            83 => Some(Val::C(0)),
            _ => None,
        });
        let why = (|| {
            let outs = b.go("__vs::h_bit", &[*w, *h, n], inp)?;
            rep.count("partitions", outs.len() as u64);
            let mut some = 0;
            for (st, o) in &outs {
                match o {
                    Outcome::Return(Val::C(0)) => {}
                    // perspective not accepted or result outside the coordinate type
                    Outcome::Return(Val::C(1)) | Outcome::Panic { .. } => continue,
                    o => return Err(format!("{o:?}")),
                }
                some += 1;
                if !st.outs(33).is_empty() {
                    return Err("the image is written".into());
                }
                if st.outs(20).concat() != vec![Val::C(n)] {
                    return Err("the size is not the grid's".into());
                }
                let p = st.outs(82).concat();
                if p.len() != 2 {
                    return Err(format!("{} coordinates read", p.len()));
                }
                for k in 0..2 {
                    let last = [*w, *h][k] as i128 - 1;
                    // names of the comparisons on either way of writing the rounding
                    let x = Real { int: true, ..real::app("round", &Rc::new(want[k].clone())) };
                    let xu = Real { int: true, b: Some((0, u64::MAX as i128)), ..real::app("unsigned", &Rc::new(x.clone())) };
                    let lt = |a: &Real, b: &Real| mk_bits(vec![real::lt_atom(d, a, b)]);
                    let ge = |a: &Real, b: &Real| mk_bits(vec![real::lt_atom(d, a, b).not()]);
                    let eq = |a: &Real, b: &Real| mk_bits(vec![real::eq_atom(d, a, b)]);
                    let int = |v: i128| real::int(v);
                    let yes = |v: &Val| crate::guard::decide(d, &st.guard, v) == Some(true);
                    // not negative, and not beyond the last one
                    let nonneg = yes(&or(d, &[ge(&x, &int(0)), lt(&int(0), &x), lt(&int(-1), &x)]));
                    let mut hi = vec![ge(&int(last), &x), lt(&x, &int(last)), lt(&x, &int(last + 1))];
                    let le0 = or(d, &[lt(&x, &int(0)), eq(&x, &int(0)), ge(&int(0), &x), lt(&x, &int(1))]);
                    let mut ge1 = vec![lt(&int(last), &x), eq(&x, &int(last)), ge(&x, &int(last)), lt(&int(last - 1), &x), ge(&x, &int(last + 1))];
                    if nonneg {
                        hi.extend([ge(&int(last), &xu), lt(&xu, &int(last)), lt(&xu, &int(last + 1))]);
                        ge1.extend([lt(&int(last), &xu), ge(&xu, &int(last)), lt(&int(last - 1), &xu), ge(&xu, &int(last + 1))]);
                    }
                    let (hi, ge1) = (or(d, &hi), or(d, &ge1));
                    let ok = match &p[k] {
                        Val::C(c) if *c == 0 && last == 0 => true,
                        Val::C(0) if yes(&le0) => true,
                        Val::C(c) if *c as i128 == last && yes(&ge1) => true,
                        Val::F(_) => {
                            is_rounded(&p[k], &want[k]) && nonneg && yes(&hi)
                        }
                        _ => false,
                    };
                    if !ok {
                        if std::env::var("QRAI_DBG").is_ok() {
                            eprintln!("read {:?}\nguard {:?}\nlt0 {:?} last<x {:?}", p[k], st.guard.as_ref().map(|n| (&n.cons, &n.eqs)), real::lt_atom(d, &x, &real::int(0)), real::lt_atom(d, &real::int(last), &x));
                        }
                        return Err(format!("the {} of the pixel read is not that of the module's centre", ["column", "row"][k]));
                    }
                }
            }
            if some == 0 { Err("no path reads a pixel".to_string()) } else { Ok(()) }
        })();
        if let Err(why) = why {
            let mut bad = None;
            let mut r = Rng(31 + si as u64);
            for (q, s) in quads(300, 79 + si as u64) {
                b.fresh();
                rep.count("alarms_examined", 1);
                let (x, y) = ((r.next() % (s[0] as u64 + 7)) as i64, (r.next() % (s[1] as u64 + 7)) as i64);
                let Some((px, py)) = hom(&q, s, x as f64 + 0.5, y as f64 + 0.5) else { continue };
                // nearest pixel, unless two are about equally near
                if [px, py].iter().any(|v| (v - v.floor() - 0.5).abs() < 1e-4 || v.abs() > 1e8) {
                    continue;
                }
                let at = [(px.round() as i64).clamp(0, *w as i64 - 1), (py.round() as i64).clamp(0, *h as i64 - 1)];
                let mut f = fixed_in(q.clone(), s.to_vec());
                let inp: In = Box::new(move |t, i| match (t, i) {
                    (80, 8) => Some(Val::C(x as u64)),
                    (80, 9) => Some(Val::C(y as u64)),
                    (83, _) => Some(Val::C(0)),
                    (t, i) => f(t, i),
                });
                if let Ok(k) = b.known("__vs::h_bit", &[*w, *h, n], inp) {
                    let ok = match k.code {
                        Some(0) => k.p[..] == at[..],
                        Some(_) => true,
                        None => !at.is_empty() && (px.abs() > 2e9 || py.abs() > 2e9),
                    };
                    if !ok {
                        bad = Some(format!("image of {w} by {h}, {}, row {y}, column {x}: pixel {:?} read instead of {at:?} {}", quad_text(&q, s), k.p, k.at));
                        break;
                    }
                }
            }
            match bad {
                Some(t) => rep.violation_with("identify::grid::RefGridImage::bit", &format!("sampling an image of {w} by {h}: {why}"), &t),
                None => rep.undecided(&format!("sampling an image of {w} by {h}: {why}")),
            }
        } else {
            rep.ok();
        }
        // 2. what is answered for each byte of the image
        b.fresh();
        let base = b.e.dom.fresh_aligned(8);
        let byte = mk_bits((0..8).map(|i| Bit::atom(base + i)).collect());
        let dark = b.e.dom.binop(Op::Ne, &byte, &Val::C(0), 8, false);
        let (q, s) = (vec![0, 0, 90, 0, 90, 90, 0, 90], vec![7.0, 7.0]);
        let mut f = fixed_in(q, s);
        let by = byte.clone();
        let inp: In = Box::new(move |t, i| match (t, i) {
            (80, 8..) => Some(Val::C(3)),
            (83, _) => Some(by.clone()),
            (t, i) => f(t, i),
        });
        let r = (|| {
            let outs = b.go("__vs::h_bit", &[*w, *h, n], inp)?;
            for (st, o) in &outs {
                let g = &st.guard;
                match o {
                    Outcome::Return(Val::C(0)) => {
                        let got = st.outs(84).concat();
                        if got.len() != 1 || !same(g, &got[0], &dark) {
                            return Ok(Some(format!("dark is {:?}", got)));
                        }
                        if !st.outs(33).is_empty() {
                            return Ok(Some("the image is written".into()));
                        }
                    }
                    Outcome::Panic { at, msg, .. } => return Ok(Some(format!("{msg} at {at}"))),
                    o => return Err(format!("{o:?}")),
                }
            }
            Ok(None)
        })();
        match r {
            Err(e) => rep.undecided(&format!("colours: {e}")),
            Ok(None) => rep.ok(),
            Ok(Some(t)) => {
                // look for the byte
                let mut bad = None;
                for v in 0..=255u64 {
                    b.fresh();
                    let mut f = fixed_in(vec![0, 0, 90, 0, 90, 90, 0, 90], vec![7.0, 7.0]);
                    let inp: In = Box::new(move |t, i| match (t, i) {
                        (80, 8..) => Some(Val::C(3)),
                        (83, _) => Some(Val::C(v)),
                        (t, i) => f(t, i),
                    });
                    if let Ok(k) = b.known("__vs::h_bit", &[*w, *h, n], inp) {
                        if k.code != Some(0) || k.bit != vec![(v != 0) as i64] {
                            bad = Some(format!("pixel byte {v} is answered as {:?} {}", k.bit, k.at));
                            break;
                        }
                    }
                }
                match bad {
                    Some(x) => rep.violation_with("identify::grid::RefGridImage::bit", &format!("colour of a module: {t}"), &x),
                    None => rep.undecided(&format!("colours: {t}")),
                }
            }
        }
    }
    stats(&b, rep);
}
