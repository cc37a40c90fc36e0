//! Path guards: linear equation systems over GF(2) and finite constraints, kept as a persistent
//! tree so that two partitions that meet again fall back to their common ancestor.
use crate::val::*;
use std::rc::Rc;

#[derive(Clone, Debug, Default)]
pub struct LinSys {
    /// rows in descending pivot order, pivot = highest atom; lin = c
    pub rows: Vec<(u32, Rc<Lin>, bool)>,
}

impl LinSys {
    pub fn reduce(&self, l: &Lin, c: bool) -> (Lin, bool) {
        let mut l = l.clone();
        let mut c = c;
        for (p, r, k) in &self.rows {
            if l.is_zero() {
                break;
            }
            if l.has(*p) {
                l = l.xor(r);
                c ^= k;
            }
        }
        (l, c)
    }
    /// add l = c ; false if inconsistent
    pub fn add(&mut self, l: &Lin, c: bool) -> bool {
        let (l, c) = self.reduce(l, c);
        match l.top() {
            None => !c,
            Some(p) => {
                let pos = self.rows.iter().position(|r| r.0 < p).unwrap_or(self.rows.len());
                self.rows.insert(pos, (p, Rc::new(l), c));
                true
            }
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Con {
    pub basis: Rc<Vec<Rc<Lin>>>,
    pub ok: Vec<bool>,
}

#[derive(Debug)]
pub struct GNode {
    pub parent: Option<Rc<GNode>>,
    pub depth: u32,
    /// boolean value known true on this branch (None: unconstrained split, e.g. on Top)
    pub cond: Option<Val>,
    pub eqs: Rc<LinSys>,
    pub cons: Rc<Vec<Rc<Con>>>,
    pub what: String,
    /// 0: branch, 1: join whose condition is exact, 2: join that lost its condition
    pub kind: u8,
}

pub type Guard = Option<Rc<GNode>>;

pub fn eqs(g: &Guard) -> Option<&LinSys> {
    g.as_ref().map(|n| &*n.eqs)
}

pub fn depth(g: &Guard) -> u32 {
    g.as_ref().map_or(0, |n| n.depth)
}

pub fn lca(a: &Guard, b: &Guard) -> (Guard, Option<Rc<GNode>>, Option<Rc<GNode>>) {
    // returns (common, first node of a below common, first node of b below common)
    let (mut x, mut y) = (a.clone(), b.clone());
    let (mut fx, mut fy) = (None, None);
    while depth(&x) > depth(&y) {
        fx = x.clone();
        x = x.unwrap().parent.clone();
    }
    while depth(&y) > depth(&x) {
        fy = y.clone();
        y = y.unwrap().parent.clone();
    }
    loop {
        match (&x, &y) {
            (None, None) => break,
            (Some(p), Some(q)) if Rc::ptr_eq(p, q) => break,
            _ => {
                fx = x.clone();
                x = x.unwrap().parent.clone();
                fy = y.clone();
                y = y.unwrap().parent.clone();
            }
        }
    }
    (x, fx, fy)
}

/// conjunction of the branch conditions between `top` and `g`; false when it is only implied
fn relative(d: &Dom, top: &Guard, g: &Guard) -> (Val, bool) {
    let mut r = Val::C(1);
    let mut exact = true;
    let mut n = g.clone();
    let mut k = 0;
    while depth(&n) > depth(top) {
        let x = n.unwrap();
        exact &= x.kind != 2;
        k += x.cond.is_some() as u32;
        match &x.cond {
            Some(c) if k <= 8 => {
                let c = reduce_val(top, c);
                let q = match (&r, &c) {
                    (Val::C(1), _) => c,
                    _ => d.binop(Op::And, &r, &c, 1, false),
                };
                if matches!(q, Val::C(_) | Val::B(_) | Val::T(_)) {
                    r = q;
                } else {
                    exact = false;
                }
            }
            _ => exact = false,
        }
        n = x.parent.clone();
    }
    (r, exact)
}

/// guard of the union of two partitions below their common ancestor `g`
pub fn union(d: &Dom, g: &Guard, a: &Guard, b: &Guard) -> Guard {
    let ((x, ex), (y, ey)) = (relative(d, g, a), relative(d, g, b));
    let exact = ex && ey;
    let mut u = if y == d.not(&x, 1) { Val::C(1) } else { d.binop(Op::Or, &x, &y, 1, false) };
    if exact && u == Val::C(1) {
        return g.clone();
    }
    if std::env::var("QRAI_DBG").is_ok() {
        for (t, r, e) in [(a, &x, ex), (b, &y, ey)] {
            let mut n = t.clone();
            eprintln!("union side {r:?} exact {e}:");
            while depth(&n) > depth(g) {
                let x = n.unwrap();
                eprintln!("   kind {} {} {:?}", x.kind, x.what, x.cond);
                n = x.parent.clone();
            }
        }
    }
    let known = matches!(u, Val::C(_) | Val::B(_) | Val::T(_));
    if !known {
        u = Val::C(1);
    }
    if exact && known && decide(d, g, &u) == Some(true) {
        return g.clone();
    }
    let what = a.as_ref().map(|n| n.what.clone()).unwrap_or_default();
    match assume(d, g, &u, &what) {
        Some(Some(n)) => {
            let mut n = Rc::try_unwrap(n).unwrap();
            n.kind = if exact && known { 1 } else { 2 };
            Some(Rc::new(n))
        }
        _ => g.clone(),
    }
}

pub fn reduce_bit(g: &Guard, b: &Bit) -> Bit {
    match (b, eqs(g)) {
        (Bit::F(l, c), Some(e)) if !e.rows.is_empty() => {
            let (l2, c2) = e.reduce(l, *c);
            if l2 == **l { b.clone() } else { Bit::form(l2, c2) }
        }
        _ => b.clone(),
    }
}

/// simplify a value under the linear part of the guard
pub fn reduce_val(g: &Guard, v: &Val) -> Val {
    let Some(e) = eqs(g) else { return v.clone() };
    if e.rows.is_empty() {
        return v.clone();
    }
    match v {
        Val::B(b) => mk_bits(b.iter().map(|x| reduce_bit(g, x)).collect()),
        Val::T(t) => {
            let mut changed = false;
            let red: Vec<(Lin, bool)> = t
                .basis
                .iter()
                .map(|f| {
                    let r = e.reduce(f, false);
                    if r.0 != **f || r.1 {
                        changed = true;
                    }
                    r
                })
                .collect();
            if !changed {
                return v.clone();
            }
            let forms: Vec<Rc<Lin>> = red.iter().filter(|r| !r.0.is_zero()).map(|r| Rc::new(r.0.clone())).collect();
            let nb = Rc::new(rref(&forms));
            let mut c = 0u64;
            let mut col = vec![0u64; nb.len()];
            for (i, (l, k)) in red.iter().enumerate() {
                if *k {
                    c |= 1 << i;
                }
                let m = coords(&nb, l);
                for j in 0..nb.len() {
                    if m >> j & 1 == 1 {
                        col[j] |= 1 << i;
                    }
                }
            }
            let idx = lin_table(c, &col);
            norm_tab(Tab { basis: nb, vals: idx.into_iter().map(|i| t.vals[i as usize]).collect() })
        }
        _ => v.clone(),
    }
}

fn reduce_con(g: &Guard, c: &Con) -> Con {
    let vals = c.ok.iter().map(|&b| b as u64).collect();
    let t = Val::T(Rc::new(Tab { basis: c.basis.clone(), vals }));
    match reduce_val(g, &t) {
        Val::T(t) => Con { basis: t.basis.clone(), ok: t.vals.iter().map(|&x| x != 0).collect() },
        Val::C(k) => Con { basis: Rc::new(vec![]), ok: vec![k != 0] },
        Val::B(b) => {
            let t = bits_to_tab(&b, 64).unwrap();
            Con { basis: t.basis.clone(), ok: t.vals.iter().map(|&x| x != 0).collect() }
        }
        _ => unreachable!(),
    }
}

/// tabulate `v` with the set of feasible entries under the guard. None if too wide.
pub fn feasible(d: &Dom, g: &Guard, v: &Val) -> Option<(Tab, Vec<bool>)> {
    let v = reduce_val(g, v);
    let mut forms = vec![];
    if !forms_of(&v, &mut forms) {
        return None;
    }
    let mut basis = common_basis(&[&v], d.max_dims.max(8))?;
    let mut used: Vec<Con> = vec![];
    if let Some(n) = g {
        let mut rest: Vec<Con> = n.cons.iter().map(|c| reduce_con(g, c)).filter(|c| !c.basis.is_empty()).collect();
        // repeatedly add constraints that touch the span
        loop {
            let mut hit = None;
            for (i, c) in rest.iter().enumerate() {
                let mut f: Vec<Rc<Lin>> = basis.iter().cloned().collect();
                f.extend(c.basis.iter().cloned());
                let u = rref(&f);
                if u.len() < basis.len() + c.basis.len() && u.len() <= d.max_dims.max(8) + 2 {
                    hit = Some((i, u));
                    break;
                }
            }
            match hit {
                Some((i, u)) => {
                    basis = Rc::new(u);
                    used.push(rest.remove(i));
                }
                None => break,
            }
        }
    }
    let t = val_over(&v, &basis)?;
    let mut ok = vec![true; t.vals.len()];
    for c in &used {
        let ct = Tab { basis: c.basis.clone(), vals: c.ok.iter().map(|&b| b as u64).collect() };
        let ct = tab_over(&ct, &basis);
        for i in 0..ok.len() {
            ok[i] &= ct.vals[i] != 0;
        }
    }
    Some((t, ok))
}

/// Some(b) if the boolean is decided under the guard
pub fn decide(d: &Dom, g: &Guard, v: &Val) -> Option<bool> {
    match v {
        Val::C(c) => Some(*c != 0),
        Val::B(_) | Val::T(_) => {
            let r = reduce_val(g, v);
            if let Val::C(c) = r {
                return Some(c != 0);
            }
            let no_cons = g.as_ref().map_or(true, |n| n.cons.is_empty());
            if no_cons {
                if let Val::B(b) = &r {
                    if b.len() == 1 {
                        return None;
                    }
                }
            }
            let (t, ok) = feasible(d, g, &r)?;
            let mut seen = [false; 2];
            for i in 0..ok.len() {
                if ok[i] {
                    seen[(t.vals[i] != 0) as usize] = true;
                }
            }
            match seen {
                [true, false] => Some(false),
                [false, true] => Some(true),
                [false, false] => Some(false),
                _ => None,
            }
        }
        _ => None,
    }
}

/// set of feasible values (None if too many or unknown)
pub fn values(d: &Dom, g: &Guard, v: &Val, limit: usize) -> Option<Vec<u64>> {
    if let Val::C(c) = v {
        return Some(vec![*c]);
    }
    if let Val::T(t) = v {
        if untouched(g, &t.basis) {
            let mut s = t.vals.to_vec();
            s.sort_unstable();
            s.dedup();
            return if s.len() > limit { None } else { Some(s) };
        }
    }
    let (t, ok) = feasible(d, g, v)?;
    let mut s: Vec<u64> = (0..ok.len()).filter(|&i| ok[i]).map(|i| t.vals[i]).collect();
    s.sort_unstable();
    s.dedup();
    if s.len() > limit { None } else { Some(s) }
}

/// the guard says nothing about the atoms of these forms
fn untouched(g: &Guard, forms: &[Rc<Lin>]) -> bool {
    if let Some(n) = g {
        let hit = |o: &Lin| forms.iter().any(|f| f.w.iter().any(|(c, m)| o.w.binary_search_by_key(c, |p| p.0).is_ok_and(|i| o.w[i].1 & m != 0)));
        !n.eqs.rows.iter().any(|r| hit(&r.1)) && !n.cons.iter().any(|c| c.basis.iter().any(|l| hit(l)))
    } else {
        true
    }
}

/// surely every value is possible: independent forms over atoms the guard says nothing about
pub fn surely_full(g: &Guard, v: &Val) -> bool {
    let Val::B(b) = v else { return false };
    let mut forms = vec![];
    for x in b.iter() {
        let Bit::F(l, _) = x else { return false };
        forms.push(l.clone());
    }
    if !untouched(g, &forms) {
        return false;
    }
    // single distinct atoms are independent
    let mut at: Vec<u32> = vec![];
    for f in &forms {
        match f.w[..] {
            [(_, m)] if m.count_ones() == 1 => at.push(f.top().unwrap()),
            _ => return rref(&forms).len() == forms.len(),
        }
    }
    at.sort_unstable();
    at.windows(2).all(|w| w[0] != w[1])
}

/// extend the guard with boolean `cond` = true. None when infeasible.
pub fn assume(d: &Dom, g: &Guard, cond: &Val, what: &str) -> Option<Guard> {
    let mut eqs: Rc<LinSys> = g.as_ref().map(|n| n.eqs.clone()).unwrap_or_default();
    let mut cons: Rc<Vec<Rc<Con>>> = g.as_ref().map(|n| n.cons.clone()).unwrap_or_default();
    match cond {
        Val::C(0) => return None,
        Val::C(_) => {}
        Val::B(_) | Val::T(_) => {
            let r = reduce_val(g, cond);
            match &r {
                Val::C(0) => return None,
                Val::C(_) => {}
                Val::B(b) if b.len() == 1 => {
                    if let Bit::F(l, c) = &b[0] {
                        let mut e = (*eqs).clone();
                        if !e.add(l, !*c) {
                            return None;
                        }
                        eqs = Rc::new(e);
                    }
                }
                _ => {
                    if let Some((t, ok)) = feasible(d, g, &r) {
                        let allowed: Vec<bool> = (0..ok.len()).map(|i| ok[i] && t.vals[i] != 0).collect();
                        if !allowed.iter().any(|&b| b) {
                            return None;
                        }
                        // affine hull of the allowed set
                        let (hull, exact) = affine_hull(&t.basis, &allowed);
                        if !hull.is_empty() {
                            let mut e = (*eqs).clone();
                            for (l, c) in &hull {
                                if !e.add(l, *c) {
                                    return None;
                                }
                            }
                            eqs = Rc::new(e);
                        }
                        if !exact {
                            let con = Con { basis: t.basis.clone(), ok: allowed };
                            let mut v: Vec<Rc<Con>> = cons
                                .iter()
                                .filter(|c| !c.basis.iter().all(|f| in_span(&con.basis, f)))
                                .cloned()
                                .collect();
                            v.push(Rc::new(con));
                            cons = Rc::new(v);
                        }
                    }
                }
            }
        }
        _ => {}
    }
    let known = matches!(cond, Val::B(_) | Val::T(_) | Val::C(_));
    Some(Some(Rc::new(GNode {
        depth: depth(g) + 1,
        parent: g.clone(),
        cond: if known { Some(cond.clone()) } else { None },
        eqs,
        cons,
        what: what.to_string(),
        kind: 0,
    })))
}

/// equations satisfied by every allowed assignment, and whether they characterise the set
fn affine_hull(basis: &Rc<Vec<Rc<Lin>>>, ok: &[bool]) -> (Vec<(Lin, bool)>, bool) {
    let pts: Vec<u64> = (0..ok.len()).filter(|&i| ok[i]).map(|i| i as u64).collect();
    let p0 = pts[0];
    // span of differences (as vectors over basis coords)
    let mut rows: Vec<u64> = vec![];
    for &p in &pts[1..] {
        let mut v = p ^ p0;
        for r in &rows {
            let h = 63 - r.leading_zeros();
            if v >> h & 1 == 1 {
                v ^= r;
            }
        }
        if v != 0 {
            let h = 63 - v.leading_zeros();
            for r in rows.iter_mut() {
                if *r >> h & 1 == 1 {
                    *r ^= v;
                }
            }
            rows.push(v);
            if rows.len() == basis.len() {
                break;
            }
        }
    }
    let k = basis.len();
    let exact = pts.len() == 1usize << rows.len();
    // orthogonal complement: functionals f (k-bit) with f.r = 0 for all rows
    let pivots: Vec<u32> = rows.iter().map(|r| 63 - r.leading_zeros()).collect();
    let mut out = vec![];
    for j in 0..k as u32 {
        if pivots.contains(&j) {
            continue;
        }
        // free coordinate j: functional e_j + sum over rows having bit j of e_pivot
        let mut f = 1u64 << j;
        for (r, &p) in rows.iter().zip(&pivots) {
            if r >> j & 1 == 1 {
                f |= 1 << p;
            }
        }
        let mut l = Lin::default();
        for i in 0..k {
            if f >> i & 1 == 1 {
                l = l.xor(&basis[i]);
            }
        }
        let c = (f & p0).count_ones() & 1 == 1;
        out.push((l, c));
    }
    (out, exact)
}
