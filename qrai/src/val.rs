//! Abstract value domain.
//!
//! * `C`      constants (flat constant-propagation lattice)
//! * `B`      per-bit affine forms over GF(2) in the input atoms (relational, exact)
//! * `T`      finite functional domain: a value tabulated over a small basis of affine forms
//! * `R`      unsigned intervals
//! * `Ptr`    abstract location + constant offset;  `SPtr` abstract location + abstract offset
//! * `Top`    anything
//!
//! No value is ever enumerated by running the analysed code: the transfer functions below act on
//! sets of values.
use std::rc::Rc;

// ---------------------------------------------------------------- linear forms over GF(2)
#[derive(Clone, PartialEq, Eq, Hash, Debug, Default, PartialOrd, Ord)]
pub struct Lin {
    pub w: Vec<(u32, u64)>,
}

impl Lin {
    pub fn atom(a: u32) -> Lin {
        Lin { w: vec![(a >> 6, 1u64 << (a & 63))] }
    }
    pub fn is_zero(&self) -> bool {
        self.w.is_empty()
    }
    pub fn has(&self, a: u32) -> bool {
        match self.w.binary_search_by_key(&(a >> 6), |p| p.0) {
            Ok(i) => self.w[i].1 >> (a & 63) & 1 == 1,
            Err(_) => false,
        }
    }
    /// highest atom (pivot)
    pub fn top(&self) -> Option<u32> {
        self.w.last().map(|&(c, m)| (c << 6) | (63 - m.leading_zeros()))
    }
    pub fn xor(&self, o: &Lin) -> Lin {
        let (a, b) = (&self.w, &o.w);
        if a.is_empty() {
            return o.clone();
        }
        if b.is_empty() {
            return self.clone();
        }
        let mut r = Vec::with_capacity(a.len().max(b.len()) + 2);
        let (mut i, mut j) = (0, 0);
        while i < a.len() && j < b.len() {
            if a[i].0 == b[j].0 {
                let m = a[i].1 ^ b[j].1;
                if m != 0 {
                    r.push((a[i].0, m));
                }
                i += 1;
                j += 1;
            } else if a[i].0 < b[j].0 {
                r.push(a[i]);
                i += 1;
            } else {
                r.push(b[j]);
                j += 1;
            }
        }
        r.extend_from_slice(&a[i..]);
        r.extend_from_slice(&b[j..]);
        Lin { w: r }
    }
    pub fn atoms(&self) -> Vec<u32> {
        let mut v = vec![];
        for &(c, m) in &self.w {
            let mut m = m;
            while m != 0 {
                v.push((c << 6) | m.trailing_zeros());
                m &= m - 1;
            }
        }
        v
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Bit {
    Z,
    O,
    F(Rc<Lin>, bool),
}

impl Bit {
    pub fn k(b: bool) -> Bit {
        if b { Bit::O } else { Bit::Z }
    }
    pub fn atom(a: u32) -> Bit {
        Bit::F(Rc::new(Lin::atom(a)), false)
    }
    pub fn form(l: Lin, c: bool) -> Bit {
        if l.is_zero() { Bit::k(c) } else { Bit::F(Rc::new(l), c) }
    }
    pub fn konst(&self) -> Option<bool> {
        match self {
            Bit::Z => Some(false),
            Bit::O => Some(true),
            _ => None,
        }
    }
    pub fn not(&self) -> Bit {
        match self {
            Bit::Z => Bit::O,
            Bit::O => Bit::Z,
            Bit::F(l, c) => Bit::F(l.clone(), !c),
        }
    }
    pub fn xor(&self, o: &Bit) -> Bit {
        match (self, o) {
            (Bit::Z, x) | (x, Bit::Z) => x.clone(),
            (Bit::O, x) | (x, Bit::O) => x.not(),
            (Bit::F(a, c), Bit::F(b, d)) => {
                if Rc::ptr_eq(a, b) {
                    return Bit::k(c ^ d);
                }
                Bit::form(a.xor(b), c ^ d)
            }
        }
    }
    /// None if not affine
    pub fn and(&self, o: &Bit) -> Option<Bit> {
        match (self, o) {
            (Bit::Z, _) | (_, Bit::Z) => Some(Bit::Z),
            (Bit::O, x) | (x, Bit::O) => Some(x.clone()),
            (Bit::F(a, c), Bit::F(b, d)) => {
                if a == b {
                    if c == d { Some(self.clone()) } else { Some(Bit::Z) }
                } else {
                    None
                }
            }
        }
    }
    pub fn or(&self, o: &Bit) -> Option<Bit> {
        Some(self.not().and(&o.not())?.not())
    }
}

pub type Bits = Vec<Bit>;

// ---------------------------------------------------------------- tables
/// A function from the values of `basis` (linearly independent forms, reduced echelon, ascending
/// pivot) to `vals`; entry index bit j = value of basis[j].
#[derive(Clone, PartialEq, Debug)]
pub struct Tab {
    pub basis: Rc<Vec<Rc<Lin>>>,
    pub vals: Vec<u64>,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Base {
    Local(u16, u16),
    Heap(u32),
    Global(u32),
    Fn(u32),
    VT(u32),
}

#[derive(Clone, PartialEq, Debug)]
pub enum Val {
    Undef,
    C(u64),
    Ptr(Base, i64),
    SPtr(Rc<(Base, Val)>),
    B(Rc<Bits>),
    T(Rc<Tab>),
    R(u64, u64),
    /// symbolic real number (rational function), see real.rs
    F(Rc<crate::real::Real>),
    Top,
}

pub fn mask(bits: u32) -> u64 {
    if bits >= 64 { !0 } else { (1u64 << bits) - 1 }
}

pub fn sext(v: u64, bits: u32) -> i64 {
    if bits >= 64 { v as i64 } else { ((v << (64 - bits)) as i64) >> (64 - bits) }
}

/// reduced echelon basis (pivot = highest atom), ascending pivots
pub fn rref(forms: &[Rc<Lin>]) -> Vec<Rc<Lin>> {
    let mut rows: Vec<(u32, Lin)> = vec![];
    for f in forms {
        let mut f = (**f).clone();
        for (p, r) in rows.iter() {
            if f.has(*p) {
                f = f.xor(r);
            }
        }
        if let Some(p) = f.top() {
            for (_, r) in rows.iter_mut() {
                if r.has(p) {
                    *r = r.xor(&f);
                }
            }
            rows.push((p, f));
        }
    }
    rows.sort_by_key(|r| r.0);
    rows.into_iter().map(|r| Rc::new(r.1)).collect()
}

/// coordinates of `f` in the rref basis (must lie in the span)
pub fn coords(basis: &[Rc<Lin>], f: &Lin) -> u64 {
    let mut m = 0;
    for (j, b) in basis.iter().enumerate() {
        if f.has(b.top().unwrap()) {
            m |= 1 << j;
        }
    }
    m
}

pub fn in_span(basis: &[Rc<Lin>], f: &Lin) -> bool {
    let m = coords(basis, f);
    let mut g = f.clone();
    for (j, b) in basis.iter().enumerate() {
        if m >> j & 1 == 1 {
            g = g.xor(b);
        }
    }
    g.is_zero()
}

pub fn bits_of_const(v: u64) -> Bits {
    let n = 64 - v.leading_zeros();
    (0..n).map(|i| Bit::k(v >> i & 1 == 1)).collect()
}

pub fn mk_bits(mut v: Bits) -> Val {
    while let Some(Bit::Z) = v.last() {
        v.pop();
    }
    let mut c = 0u64;
    for (i, b) in v.iter().enumerate() {
        match b {
            Bit::Z => {}
            Bit::O => c |= 1 << i,
            _ => return Val::B(Rc::new(v)),
        }
    }
    Val::C(c)
}

pub fn bit_at(b: &Bits, i: usize) -> Bit {
    b.get(i).cloned().unwrap_or(Bit::Z)
}

/// Linear index map m -> XOR_{j in m} col[j], for all m < 2^k, starting at c.
pub fn lin_table(c: u64, col: &[u64]) -> Vec<u64> {
    let mut v = Vec::with_capacity(1 << col.len());
    v.push(c);
    for (j, &x) in col.iter().enumerate() {
        for m in 0..(1usize << j) {
            let y = v[m] ^ x;
            v.push(y);
        }
    }
    v
}

pub fn bits_to_tab(b: &Bits, max_dims: usize) -> Option<Tab> {
    let mut forms: Vec<Rc<Lin>> = vec![];
    for x in b {
        if let Bit::F(l, _) = x {
            if !forms.iter().any(|f| f == l) {
                forms.push(l.clone());
            }
        }
    }
    let basis = rref(&forms);
    if basis.len() > max_dims {
        return None;
    }
    Some(bits_over(b, &Rc::new(basis)))
}

/// tabulate bits over a basis known to span them
pub fn bits_over(b: &Bits, basis: &Rc<Vec<Rc<Lin>>>) -> Tab {
    let mut c = 0u64;
    let mut col = vec![0u64; basis.len()];
    for (i, x) in b.iter().enumerate() {
        match x {
            Bit::Z => {}
            Bit::O => c |= 1 << i,
            Bit::F(l, k) => {
                if *k {
                    c |= 1 << i;
                }
                let m = coords(basis, l);
                for j in 0..basis.len() {
                    if m >> j & 1 == 1 {
                        col[j] |= 1 << i;
                    }
                }
            }
        }
    }
    Tab { basis: basis.clone(), vals: lin_table(c, &col) }
}

/// re-index a table over a larger basis spanning its own
pub fn tab_over(t: &Tab, basis: &Rc<Vec<Rc<Lin>>>) -> Tab {
    if Rc::ptr_eq(&t.basis, basis) || t.basis == *basis {
        return Tab { basis: basis.clone(), vals: t.vals.clone() };
    }
    let mut col = vec![0u64; basis.len()];
    for (i, f) in t.basis.iter().enumerate() {
        let m = coords(basis, f);
        for j in 0..basis.len() {
            if m >> j & 1 == 1 {
                col[j] |= 1 << i;
            }
        }
    }
    let idx = lin_table(0, &col);
    Tab { basis: basis.clone(), vals: idx.into_iter().map(|i| t.vals[i as usize]).collect() }
}

pub fn forms_of(v: &Val, out: &mut Vec<Rc<Lin>>) -> bool {
    match v {
        Val::C(_) => true,
        Val::B(b) => {
            for x in b.iter() {
                if let Bit::F(l, _) = x {
                    out.push(l.clone());
                }
            }
            true
        }
        Val::T(t) => {
            out.extend(t.basis.iter().cloned());
            true
        }
        _ => false,
    }
}

/// common basis of several values
pub fn common_basis(vs: &[&Val], max_dims: usize) -> Option<Rc<Vec<Rc<Lin>>>> {
    // fast path: identical bases
    let mut one: Option<&Rc<Vec<Rc<Lin>>>> = None;
    let mut same = true;
    for v in vs {
        match v {
            Val::C(_) => {}
            Val::T(t) => match one {
                None => one = Some(&t.basis),
                Some(b) => {
                    if !Rc::ptr_eq(b, &t.basis) && **b != *t.basis {
                        same = false;
                    }
                }
            },
            _ => same = false,
        }
    }
    if same {
        if let Some(b) = one {
            return if b.len() <= max_dims { Some(b.clone()) } else { None };
        }
    }
    let mut f = vec![];
    for v in vs {
        if !forms_of(v, &mut f) {
            return None;
        }
    }
    f.sort();
    f.dedup();
    if f.len() > 4 * max_dims + 64 {
        // cheap early out is not sound to conclude rank, so still compute
    }
    let b = rref_limited(&f, max_dims)?;
    Some(Rc::new(b))
}

fn rref_limited(forms: &[Rc<Lin>], max: usize) -> Option<Vec<Rc<Lin>>> {
    let mut rows: Vec<(u32, Lin)> = vec![];
    for f in forms {
        let mut f = (**f).clone();
        for (p, r) in rows.iter() {
            if f.has(*p) {
                f = f.xor(r);
            }
        }
        if let Some(p) = f.top() {
            if rows.len() == max {
                return None;
            }
            for (_, r) in rows.iter_mut() {
                if r.has(p) {
                    *r = r.xor(&f);
                }
            }
            rows.push((p, f));
        }
    }
    rows.sort_by_key(|r| r.0);
    Some(rows.into_iter().map(|r| Rc::new(r.1)).collect())
}

pub fn val_over(v: &Val, basis: &Rc<Vec<Rc<Lin>>>) -> Option<Tab> {
    Some(match v {
        Val::C(c) => Tab { basis: basis.clone(), vals: vec![*c; 1 << basis.len()] },
        Val::B(b) => bits_over(b, basis),
        Val::T(t) => tab_over(t, basis),
        _ => return None,
    })
}

/// canonicalise a table: constant / affine bits / table without irrelevant basis elements
pub fn norm_tab(mut t: Tab) -> Val {
    let k = t.basis.len();
    let c = t.vals[0];
    // affine?
    let mut affine = true;
    let mut or = 0u64;
    for m in 1..t.vals.len() {
        let low = m & m.wrapping_neg();
        let rest = m & (m - 1);
        if rest != 0 {
            if t.vals[m] != t.vals[rest] ^ t.vals[low] ^ c {
                affine = false;
                break;
            }
        } else {
            or |= t.vals[m] ^ c;
        }
    }
    if affine {
        if or == 0 {
            return Val::C(c);
        }
        let mut out: Bits = vec![];
        let hi = 64 - (or | c).leading_zeros();
        for i in 0..hi {
            let mut l = Lin::default();
            let mut first: Option<Rc<Lin>> = None;
            let mut n = 0;
            for j in 0..k {
                if (t.vals[1 << j] ^ c) >> i & 1 == 1 {
                    n += 1;
                    if n == 1 {
                        first = Some(t.basis[j].clone());
                    } else {
                        if n == 2 {
                            l = (**first.as_ref().unwrap()).clone();
                        }
                        l = l.xor(&t.basis[j]);
                    }
                }
            }
            let cb = c >> i & 1 == 1;
            out.push(match n {
                0 => Bit::k(cb),
                1 => Bit::F(first.unwrap(), cb),
                _ => Bit::form(l, cb),
            });
        }
        return mk_bits(out);
    }
    // drop irrelevant basis elements
    let mut drop = vec![];
    for j in 0..k {
        let s = 1usize << j;
        let mut dep = false;
        let mut m = 0;
        'o: while m < t.vals.len() {
            for q in m..m + s {
                if t.vals[q] != t.vals[q + s] {
                    dep = true;
                    break 'o;
                }
            }
            m += 2 * s;
        }
        if !dep {
            drop.push(j);
        }
    }
    if !drop.is_empty() {
        let keep: Vec<usize> = (0..k).filter(|j| !drop.contains(j)).collect();
        let mut nv = Vec::with_capacity(1 << keep.len());
        let cols: Vec<u64> = keep.iter().map(|&j| 1u64 << j).collect();
        for i in lin_table(0, &cols) {
            nv.push(t.vals[i as usize]);
        }
        t = Tab { basis: Rc::new(keep.iter().map(|&j| t.basis[j].clone()).collect()), vals: nv };
    }
    Val::T(Rc::new(t))
}

// ---------------------------------------------------------------- ranges
pub fn urange(v: &Val, bits: u32) -> (u64, u64) {
    match v {
        Val::C(c) => (*c, *c),
        Val::R(a, b) => (*a, *b),
        Val::B(b) => {
            let (mut lo, mut hi) = (0u64, 0u64);
            for (i, x) in b.iter().enumerate() {
                match x {
                    Bit::Z => {}
                    Bit::O => {
                        lo |= 1 << i;
                        hi |= 1 << i
                    }
                    _ => hi |= 1 << i,
                }
            }
            (lo, hi)
        }
        Val::T(t) => {
            let mut lo = !0u64;
            let mut hi = 0;
            for &x in &t.vals {
                lo = lo.min(x);
                hi = hi.max(x);
            }
            (lo, hi)
        }
        _ => (0, mask(bits)),
    }
}

// ---------------------------------------------------------------- operations
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Op {
    Add,
    Sub,
    Mul,
    Div,
    Rem,
    Xor,
    And,
    Or,
    Shl,
    Shr,
    Eq,
    Ne,
    Lt,
    Le,
    Gt,
    Ge,
    /// overflow flag of add/sub/mul
    AddO,
    SubO,
    MulO,
    Cmp,
    SatAdd,
    SatSub,
}

impl Op {
    pub fn is_cmp(self) -> bool {
        matches!(self, Op::Eq | Op::Ne | Op::Lt | Op::Le | Op::Gt | Op::Ge)
    }
}

/// constant folding; operands are zero-extended bit patterns
pub fn cop(op: Op, a: u64, b: u64, bits: u32, signed: bool) -> Option<u64> {
    let m = mask(bits);
    let (sa, sb) = (sext(a, bits), sext(b, bits));
    Some(match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::Div => {
            if b == 0 {
                return None;
            }
            if signed { sa.wrapping_div(sb) as u64 & m } else { a / b }
        }
        Op::Rem => {
            if b == 0 {
                return None;
            }
            if signed { sa.wrapping_rem(sb) as u64 & m } else { a % b }
        }
        Op::Xor => a ^ b,
        Op::And => a & b,
        Op::Or => a | b,
        Op::Shl => (a << (b & (bits as u64 - 1))) & m,
        Op::Shr => {
            let s = b & (bits as u64 - 1);
            if signed { (sa >> s) as u64 & m } else { a >> s }
        }
        Op::Eq => (a == b) as u64,
        Op::Ne => (a != b) as u64,
        Op::Lt => (if signed { sa < sb } else { a < b }) as u64,
        Op::Le => (if signed { sa <= sb } else { a <= b }) as u64,
        Op::Gt => (if signed { sa > sb } else { a > b }) as u64,
        Op::Ge => (if signed { sa >= sb } else { a >= b }) as u64,
        Op::AddO => {
            if signed {
                let r = sa as i128 + sb as i128;
                (r != sext(r as u64 & m, bits) as i128) as u64
            } else {
                (a as u128 + b as u128 > m as u128) as u64
            }
        }
        Op::SubO => {
            if signed {
                let r = sa as i128 - sb as i128;
                (r != sext(r as u64 & m, bits) as i128) as u64
            } else {
                (a < b) as u64
            }
        }
        Op::MulO => {
            if signed {
                let r = sa as i128 * sb as i128;
                (r != sext(r as u64 & m, bits) as i128) as u64
            } else {
                (a as u128 * b as u128 > m as u128) as u64
            }
        }
        Op::Cmp => {
            let o = if signed { sa.cmp(&sb) } else { a.cmp(&b) };
            o as i8 as u8 as u64
        }
        Op::SatAdd => {
            if signed {
                let r = sa as i128 + sb as i128;
                let (lo, hi) = (-(1i128 << (bits - 1)), (1i128 << (bits - 1)) - 1);
                r.clamp(lo, hi) as u64 & m
            } else {
                (a as u128 + b as u128).min(m as u128) as u64
            }
        }
        Op::SatSub => {
            if signed {
                let r = sa as i128 - sb as i128;
                let (lo, hi) = (-(1i128 << (bits - 1)), (1i128 << (bits - 1)) - 1);
                r.clamp(lo, hi) as u64 & m
            } else {
                a.saturating_sub(b)
            }
        }
    })
}

fn as_bits(v: &Val) -> Option<Bits> {
    match v {
        Val::C(c) => Some(bits_of_const(*c)),
        Val::B(b) => Some((**b).clone()),
        _ => None,
    }
}

pub fn boolv(b: Bit) -> Val {
    mk_bits(vec![b])
}

pub struct Dom {
    pub max_dims: usize,
    pub fresh_bytes: bool,
    pub next_atom: std::cell::Cell<u32>,
    pub atom_names: std::cell::RefCell<Vec<(u32, String)>>,
    pub top_ops: std::cell::Cell<u64>,
    pub lossy: std::cell::Cell<u64>,
    /// numbers that unknown integers were compared with
    pub cuts: std::cell::RefCell<Vec<i64>>,
    pub names: std::cell::RefCell<std::collections::HashMap<(u8, Vec<u64>), u32>>,
}

impl Dom {
    /// the unknown truth value of a named condition
    pub fn named(&self, kind: u8, key: Vec<u64>) -> u32 {
        *self.names.borrow_mut().entry((kind, key)).or_insert_with(|| self.fresh(1))
    }
    pub fn new() -> Dom {
        Dom {
            max_dims: 16,
            fresh_bytes: false,
            next_atom: std::cell::Cell::new(0),
            atom_names: Default::default(),
            top_ops: Default::default(),
            lossy: Default::default(),
            cuts: Default::default(),
            names: Default::default(),
        }
    }
    pub fn fresh(&self, n: u32) -> u32 {
        let a = self.next_atom.get();
        self.next_atom.set(a + n);
        a
    }
    /// block of atoms aligned to 64 so that forms over it are dense
    pub fn fresh_aligned(&self, n: u32) -> u32 {
        let a = (self.next_atom.get() + 63) & !63;
        self.next_atom.set(a + n);
        a
    }
    pub fn fresh_val(&self, bits: u32) -> Val {
        let a = self.fresh(bits);
        mk_bits((0..bits).map(|i| Bit::atom(a + i)).collect())
    }
    pub fn top(&self, bits: u32) -> Val {
        self.top_ops.set(self.top_ops.get() + 1);
        if self.fresh_bytes && bits <= 8 { self.fresh_val(bits) } else { Val::Top }
    }
    pub fn rng(&self, lo: u64, hi: u64, bits: u32) -> Val {
        if lo == hi {
            return Val::C(lo);
        }
        if self.fresh_bytes && bits <= 8 {
            return self.fresh_val(bits);
        }
        self.top_ops.set(self.top_ops.get() + 1);
        if lo == 0 && hi == mask(bits) { Val::Top } else { Val::R(lo, hi) }
    }

    pub fn binop(&self, op: Op, a: &Val, b: &Val, bits: u32, signed: bool) -> Val {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            return match cop(op, *x, *y, bits, signed) {
                Some(v) => Val::C(v),
                None => Val::Undef,
            };
        }
        if matches!(a, Val::F(_)) || matches!(b, Val::F(_)) {
            return crate::real::ibin(self, op, a, b, bits, signed);
        }
        let rbits = if op.is_cmp() || matches!(op, Op::AddO | Op::SubO | Op::MulO) {
            1
        } else if op == Op::Cmp {
            8
        } else {
            bits
        };
        if matches!(a, Val::Ptr(..) | Val::SPtr(..)) || matches!(b, Val::Ptr(..) | Val::SPtr(..)) {
            return self.ptr_binop(op, a, b, rbits);
        }
        if matches!(a, Val::Undef) || matches!(b, Val::Undef) {
            return Val::Undef;
        }
        // exact bitwise rules
        if let (Some(x), Some(y)) = (as_bits(a), as_bits(b)) {
            if let Some(v) = self.bit_rules(op, a, b, &x, &y, bits, signed) {
                return v;
            }
        }
        // decide comparisons and overflow by ranges
        let ((al, ah), (bl, bh)) = (urange(a, bits), urange(b, bits));
        let m = mask(bits);
        let half = 1u64 << (bits - 1);
        let same_sign = |l: u64, h: u64| (l < half && h < half) || (l >= half);
        let ord_ok = !signed || (same_sign(al, ah) && same_sign(bl, bh));
        if ord_ok {
            // map to signed order if needed
            let f = |v: u64| if signed { sext(v, bits) as i128 } else { v as i128 };
            let (al2, ah2, bl2, bh2) = (f(al), f(ah), f(bl), f(bh));
            let d = match op {
                Op::Lt | Op::Ge if ah2 < bl2 => Some(op == Op::Lt),
                Op::Lt | Op::Ge if al2 >= bh2 => Some(op == Op::Ge),
                Op::Le | Op::Gt if ah2 <= bl2 => Some(op == Op::Le),
                Op::Le | Op::Gt if al2 > bh2 => Some(op == Op::Gt),
                Op::Eq | Op::Ne if ah2 < bl2 || bh2 < al2 => Some(op == Op::Ne),
                _ => None,
            };
            if let Some(d) = d {
                return Val::C(d as u64);
            }
            let (lo, hi) = match signed {
                false => (0i128, m as i128),
                true => (-(half as i128), half as i128 - 1),
            };
            let no = match op {
                Op::AddO => al2 + bl2 >= lo && ah2 + bh2 <= hi,
                Op::SubO => al2 - bh2 >= lo && ah2 - bl2 <= hi,
                Op::MulO if !signed => ah2.checked_mul(bh2).map_or(false, |x| x <= hi),
                _ => false,
            };
            if no {
                return Val::C(0);
            }
        }
        // tabulate
        if let Some(basis) = common_basis(&[a, b], self.max_dims) {
            let (ta, tb) = (val_over(a, &basis).unwrap(), val_over(b, &basis).unwrap());
            let mut vals = ta.vals;
            for (x, y) in vals.iter_mut().zip(tb.vals.iter()) {
                // division by zero is excluded by a preceding assertion; the entry is infeasible
                *x = cop(op, *x, *y, bits, signed).unwrap_or(0);
            }
            return norm_tab(Tab { basis, vals });
        }
        // intervals
        if !signed {
            let (al, ah, bl, bh) = (al as u128, ah as u128, bl as u128, bh as u128);
            let mm = m as u128;
            let r = match op {
                Op::Add if ah + bh <= mm => Some((al + bl, ah + bh)),
                Op::Sub if al >= bh => Some((al - bh, ah - bl)),
                Op::Mul if ah.checked_mul(bh).map_or(false, |x| x <= mm) => Some((al * bl, ah * bh)),
                Op::Div if bl > 0 => Some((al / bh, ah / bl)),
                Op::Rem if bl > 0 => Some((if ah < bl { al } else { 0 }, ah.min(bh - 1))),
                Op::And => Some((0, ah.min(bh))),
                Op::Or | Op::Xor => {
                    let n = 128 - (ah | bh).leading_zeros();
                    Some((if op == Op::Or { al.max(bl) } else { 0 }, ((1u128 << n) - 1).min(mm)))
                }
                Op::Shr if bh < bits as u128 => Some((al >> bh, ah >> bl)),
                Op::Shl if bh < bits as u128 && (ah << bh) <= mm => Some((al << bl, ah << bh)),
                Op::SatAdd => Some(((al + bl).min(mm), (ah + bh).min(mm))),
                Op::SatSub => Some((al.saturating_sub(bh), ah.saturating_sub(bl))),
                _ => None,
            };
            if let Some((l, h)) = r {
                return self.rng(l as u64, h as u64, rbits);
            }
        } else if ord_ok {
            let f = |v: u64| sext(v, bits) as i128;
            let (al, ah, bl, bh) = (f(al), f(ah), f(bl), f(bh));
            let (lo, hi) = (-(half as i128), half as i128 - 1);
            let r = match op {
                Op::Add => Some((al + bl, ah + bh)),
                Op::Sub => Some((al - bh, ah - bl)),
                Op::Div if bl > 0 && al >= 0 => Some((al / bh, ah / bl)),
                Op::Mul if al >= 0 && bl >= 0 => Some((al * bl, ah * bh)),
                _ => None,
            };
            if let Some((l, h)) = r {
                if l >= lo && h <= hi && (l < 0) == (h < 0) {
                    return self.rng(l as u64 & m, h as u64 & m, rbits);
                }
            }
        }
        if op.is_cmp() || rbits == 1 {
            self.top_ops.set(self.top_ops.get() + 1);
            return Val::R(0, 1);
        }
        self.top(rbits)
    }

    fn ptr_binop(&self, op: Op, a: &Val, b: &Val, rbits: u32) -> Val {
        match (op, a, b) {
            (Op::Eq | Op::Ne, Val::Ptr(x, o), Val::Ptr(y, p)) => {
                if x == y {
                    Val::C(((o == p) == (op == Op::Eq)) as u64)
                } else {
                    Val::C((op == Op::Ne) as u64)
                }
            }
            (Op::Eq | Op::Ne, Val::Ptr(..) | Val::SPtr(..), Val::C(_))
            | (Op::Eq | Op::Ne, Val::C(_), Val::Ptr(..) | Val::SPtr(..)) => {
                // a real object is never at a small dangling address
                Val::C((op == Op::Ne) as u64)
            }
            (Op::Lt | Op::Le | Op::Gt | Op::Ge | Op::Sub | Op::SubO, Val::Ptr(x, o), Val::Ptr(y, p))
                if x == y =>
            {
                Val::C(cop(op, *o as u64, *p as u64, 64, op != Op::Sub && op != Op::SubO).unwrap())
            }
            (Op::Add, Val::Ptr(x, o), Val::C(c)) => Val::Ptr(*x, o.wrapping_add(*c as i64)),
            (Op::Sub, Val::Ptr(x, o), Val::C(c)) => Val::Ptr(*x, o.wrapping_sub(*c as i64)),
            (Op::AddO, Val::Ptr(..), Val::C(_)) => Val::C(0),
            // alignment: allocations are maximally aligned in the model
            (Op::And, Val::Ptr(_, o), Val::C(c)) | (Op::And, Val::C(c), Val::Ptr(_, o)) if *c < 16 => {
                Val::C(*o as u64 & c)
            }
            (Op::Rem, Val::Ptr(_, o), Val::C(c)) if c.is_power_of_two() && *c <= 16 => {
                Val::C(*o as u64 & (c - 1))
            }
            (Op::Gt | Op::Ge, Val::Ptr(..), Val::C(c)) if *c <= 64 => Val::C(1),
            (Op::Lt | Op::Le, Val::C(c), Val::Ptr(..)) if *c <= 64 => Val::C(1),
            (Op::Lt | Op::Le, Val::Ptr(..), Val::C(c)) if *c <= 64 => Val::C(0),
            (Op::Or, Val::Ptr(..), Val::C(0)) => a.clone(),
            _ => {
                let _ = rbits;
                Val::Top
            }
        }
    }

    fn bit_rules(&self, op: Op, a: &Val, b: &Val, x: &Bits, y: &Bits, bits: u32, signed: bool) -> Option<Val> {
        let n = x.len().max(y.len());
        match op {
            Op::Xor => Some(mk_bits((0..n).map(|i| bit_at(x, i).xor(&bit_at(y, i))).collect())),
            Op::And => {
                let mut r = vec![];
                for i in 0..x.len().min(y.len()) {
                    r.push(x[i].and(&y[i])?);
                }
                Some(mk_bits(r))
            }
            Op::Or => {
                let mut r = vec![];
                for i in 0..n {
                    r.push(bit_at(x, i).or(&bit_at(y, i))?);
                }
                Some(mk_bits(r))
            }
            Op::Add | Op::AddO | Op::SatAdd => {
                if (0..n).all(|i| bit_at(x, i) == Bit::Z || bit_at(y, i) == Bit::Z) && (!signed || n < bits as usize) {
                    return Some(match op {
                        Op::AddO => Val::C(0),
                        _ => mk_bits((0..n).map(|i| bit_at(x, i).xor(&bit_at(y, i))).collect()),
                    });
                }
                None
            }
            Op::Mul | Op::MulO => {
                let (v, k) = match (a, b) {
                    (Val::C(c), _) => (y, *c),
                    (_, Val::C(c)) => (x, *c),
                    _ => return None,
                };
                if k == 0 {
                    return Some(Val::C(0));
                }
                if !k.is_power_of_two() {
                    return None;
                }
                let s = k.trailing_zeros() as usize;
                if op == Op::MulO {
                    return if v.len() + s <= bits as usize - signed as usize { Some(Val::C(0)) } else { None };
                }
                let mut r = vec![Bit::Z; s];
                r.extend(v.iter().cloned());
                r.truncate(bits as usize);
                Some(mk_bits(r))
            }
            Op::Div | Op::Rem => {
                let Val::C(k) = b else { return None };
                if !k.is_power_of_two() || (signed && x.len() >= bits as usize) {
                    return None;
                }
                let s = k.trailing_zeros() as usize;
                Some(mk_bits(if op == Op::Div {
                    x.iter().skip(s).cloned().collect()
                } else {
                    x.iter().take(s).cloned().collect()
                }))
            }
            Op::Shl => {
                let Val::C(s) = b else { return None };
                let s = (*s & (bits as u64 - 1)) as usize;
                let mut r = vec![Bit::Z; s];
                r.extend(x.iter().cloned());
                r.truncate(bits as usize);
                Some(mk_bits(r))
            }
            Op::Shr => {
                let Val::C(s) = b else { return None };
                let s = (*s & (bits as u64 - 1)) as usize;
                let mut r: Bits = x.iter().skip(s).cloned().collect();
                if signed && x.len() == bits as usize {
                    let top = x[bits as usize - 1].clone();
                    while r.len() < bits as usize {
                        r.push(top.clone());
                    }
                }
                Some(mk_bits(r))
            }
            Op::Eq | Op::Ne => {
                let mut diff = None;
                let mut many = false;
                for i in 0..n {
                    let d = bit_at(x, i).xor(&bit_at(y, i));
                    match d {
                        Bit::Z => {}
                        Bit::O => return Some(Val::C((op == Op::Ne) as u64)),
                        d => {
                            if diff.is_some() {
                                if diff.as_ref() == Some(&d.not()) {
                                    return Some(Val::C((op == Op::Ne) as u64));
                                }
                                if diff.as_ref() != Some(&d) {
                                    many = true;
                                }
                            } else {
                                diff = Some(d)
                            }
                        }
                    }
                }
                match diff {
                    None => Some(Val::C((op == Op::Eq) as u64)),
                    Some(d) if !many => Some(boolv(if op == Op::Ne { d } else { d.not() })),
                    _ => None,
                }
            }
            _ => None,
        }
    }

    pub fn not(&self, a: &Val, bits: u32) -> Val {
        self.binop(Op::Xor, a, &Val::C(mask(bits)), bits, false)
    }

    /// zero/sign extend or truncate
    pub fn int_cast(&self, a: &Val, from: u32, to: u32, from_signed: bool) -> Val {
        match a {
            Val::C(c) => Val::C(if to > from && from_signed { sext(*c, from) as u64 & mask(to) } else { *c & mask(to) }),
            Val::B(b) => {
                let mut r: Bits = b.iter().take(to as usize).cloned().collect();
                if to > from && from_signed && b.len() == from as usize {
                    let top = b[from as usize - 1].clone();
                    while r.len() < to as usize {
                        r.push(top.clone());
                    }
                }
                mk_bits(r)
            }
            Val::T(t) => {
                let vals = t
                    .vals
                    .iter()
                    .map(|&v| if to > from && from_signed { sext(v, from) as u64 & mask(to) } else { v & mask(to) })
                    .collect();
                norm_tab(Tab { basis: t.basis.clone(), vals })
            }
            Val::R(l, h) => {
                if to >= from {
                    if !from_signed || *h < 1u64 << (from - 1) {
                        return a.clone();
                    }
                    return Val::Top;
                }
                if *h <= mask(to) { a.clone() } else { self.top(to) }
            }
            Val::Ptr(..) | Val::SPtr(..) if to == 64 => a.clone(),
            Val::F(r) => crate::real::icast(r, from, to, from_signed),
            Val::Undef => Val::Undef,
            _ => {
                if to > from && !from_signed {
                    self.rng(0, mask(from), to)
                } else {
                    self.top(to)
                }
            }
        }
    }

    /// apply a total function pointwise
    pub fn map1(&self, a: &Val, f: impl Fn(u64) -> u64, rbits: u32) -> Val {
        match a {
            Val::C(c) => Val::C(f(*c)),
            Val::Undef => Val::Undef,
            Val::B(b) => match bits_to_tab(b, self.max_dims) {
                Some(t) => norm_tab(Tab { vals: t.vals.iter().map(|&v| f(v)).collect(), basis: t.basis }),
                None => self.top(rbits),
            },
            Val::T(t) => norm_tab(Tab { vals: t.vals.iter().map(|&v| f(v)).collect(), basis: t.basis.clone() }),
            _ => self.top(rbits),
        }
    }

    /// if c then a else b; None if not exactly representable
    pub fn ite(&self, c: &Val, a: &Val, b: &Val, allow_tab: usize) -> Option<Val> {
        if a == b {
            return Some(a.clone());
        }
        match (a, b) {
            (Val::Undef, x) | (x, Val::Undef) => return Some(x.clone()),
            _ => {}
        }
        if let Val::C(k) = c {
            return Some(if *k != 0 { a.clone() } else { b.clone() });
        }
        if let (Val::B(cb), Some(x), Some(y)) = (c, as_bits(a), as_bits(b)) {
            let cb = &cb[0];
            let n = x.len().max(y.len());
            let mut r = vec![];
            let mut ok = true;
            for i in 0..n {
                let (p, q) = (bit_at(&x, i), bit_at(&y, i));
                match p.xor(&q).and(cb) {
                    Some(d) => r.push(q.xor(&d)),
                    None => {
                        ok = false;
                        break;
                    }
                }
            }
            if ok {
                return Some(mk_bits(r));
            }
        }
        if allow_tab == 0 {
            return None;
        }
        let basis = common_basis(&[c, a, b], allow_tab)?;
        let (tc, ta, tb) = (val_over(c, &basis)?, val_over(a, &basis)?, val_over(b, &basis)?);
        let vals = (0..tc.vals.len()).map(|i| if tc.vals[i] != 0 { ta.vals[i] } else { tb.vals[i] }).collect();
        Some(norm_tab(Tab { basis, vals }))
    }
}

/// value -> 8 bits slices
pub fn extract_byte(d: &Dom, v: &Val, i: u32) -> Val {
    match v {
        Val::C(c) => Val::C(c >> (8 * i) & 0xff),
        Val::B(b) => mk_bits(b.iter().skip(8 * i as usize).take(8).cloned().collect()),
        Val::T(_) => d.map1(v, |x| x >> (8 * i) & 0xff, 8),
        Val::Undef => Val::Undef,
        _ => d.top(8),
    }
}

pub fn concat_bytes(d: &Dom, vs: &[Val]) -> Val {
    let mut r = Val::C(0);
    if vs.iter().any(|v| matches!(v, Val::Undef)) {
        return Val::Undef;
    }
    let bits = vs.len() as u32 * 8;
    for (i, v) in vs.iter().enumerate() {
        let s = d.binop(Op::Shl, v, &Val::C(8 * i as u64), bits, false);
        r = d.binop(Op::Or, &r, &s, bits, false);
    }
    r
}
