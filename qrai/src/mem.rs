//! Abstract memory objects: byte-addressed cells holding abstract values.
use crate::val::*;
use std::rc::Rc;

#[derive(Clone, PartialEq, Debug)]
pub struct Cell {
    pub v: Val,
    /// 0: no value starts here; n: value of n bytes starts here; 0x80|k: k-th byte of a value
    pub t: u8,
}

const CH: usize = 64;
const NOCELL: Cell = Cell { v: Val::Undef, t: 0 };

#[derive(Clone, PartialEq, Debug)]
pub enum Repr {
    Sparse(Vec<(u32, u8, Val)>),
    Dense(Vec<Rc<Vec<Cell>>>),
}

#[derive(Clone, PartialEq, Debug)]
pub struct Store {
    pub size: u32,
    pub r: Repr,
}

impl Store {
    pub fn new(size: u32) -> Store {
        if size <= 512 {
            Store { size, r: Repr::Sparse(vec![]) }
        } else {
            let n = (size as usize).div_ceil(CH);
            let c = Rc::new(vec![NOCELL; CH]);
            Store { size, r: Repr::Dense(vec![c; n]) }
        }
    }

    fn cell(&self, o: u32) -> (u8, &Val) {
        // (tag, value) for dense
        match &self.r {
            Repr::Dense(d) => {
                let c = &d[o as usize / CH][o as usize % CH];
                (c.t, &c.v)
            }
            _ => unreachable!(),
        }
    }

    /// raw byte at offset o
    fn byte(&self, d: &Dom, o: u32) -> Val {
        match &self.r {
            Repr::Sparse(s) => {
                let i = s.partition_point(|e| e.0 <= o);
                if i > 0 {
                    let (eo, es, v) = &s[i - 1];
                    if o < eo + *es as u32 {
                        return if *es == 1 { v.clone() } else { extract_byte(d, v, o - eo) };
                    }
                }
                Val::Undef
            }
            Repr::Dense(_) => {
                let (t, v) = self.cell(o);
                if t == 0 {
                    Val::Undef
                } else if t == 1 {
                    v.clone()
                } else if t & 0x80 == 0 {
                    extract_byte(d, v, 0)
                } else {
                    let k = (t & 0x7f) as u32;
                    let (_, v) = self.cell(o - k);
                    extract_byte(d, v, k)
                }
            }
        }
    }

    pub fn read(&self, d: &Dom, o: u32, size: u32) -> Val {
        debug_assert!(size >= 1 && size <= 8);
        match &self.r {
            Repr::Sparse(s) => {
                let i = s.partition_point(|e| e.0 < o);
                if i < s.len() && s[i].0 == o && s[i].1 as u32 == size {
                    return s[i].2.clone();
                }
            }
            Repr::Dense(_) => {
                let (t, v) = self.cell(o);
                if t as u32 == size {
                    return v.clone();
                }
            }
        }
        let b: Vec<Val> = (0..size).map(|i| self.byte(d, o + i)).collect();
        if b.iter().all(|v| matches!(v, Val::Undef)) {
            return Val::Undef;
        }
        concat_bytes(d, &b)
    }

    fn put_raw(&mut self, o: u32, size: u32, v: Val) {
        match &mut self.r {
            Repr::Sparse(s) => {
                let i = s.partition_point(|e| e.0 < o);
                if i < s.len() && s[i].0 == o {
                    s[i] = (o, size as u8, v);
                } else {
                    s.insert(i, (o, size as u8, v));
                }
            }
            Repr::Dense(dv) => {
                for k in 0..size {
                    let p = (o + k) as usize;
                    let ch = Rc::make_mut(&mut dv[p / CH]);
                    ch[p % CH] = if k == 0 {
                        Cell { v: if size == 0 { Val::Undef } else { Val::Undef }, t: size as u8 }
                    } else {
                        Cell { v: Val::Undef, t: 0x80 | k as u8 }
                    };
                }
                let p = o as usize;
                Rc::make_mut(&mut dv[p / CH])[p % CH].v = v;
            }
        }
    }

    /// remove everything in [o, o+len); values straddling the border are split into bytes
    pub fn clear(&mut self, d: &Dom, o: u32, len: u32) {
        if len == 0 {
            return;
        }
        let end = o + len;
        match &mut self.r {
            Repr::Sparse(s) => {
                let mut i = s.partition_point(|e| e.0 + e.1 as u32 <= o);
                let mut add: Vec<(u32, u8, Val)> = vec![];
                while i < s.len() && s[i].0 < end {
                    let (eo, es, v) = s.remove(i);
                    for k in 0..es as u32 {
                        if eo + k < o || eo + k >= end {
                            add.push((eo + k, 1, extract_byte(d, &v, k)));
                        }
                    }
                }
                for a in add {
                    let i = s.partition_point(|e| e.0 < a.0);
                    s.insert(i, a);
                }
                let _ = &mut i;
            }
            Repr::Dense(_) => {
                // borders
                for edge in [o, end] {
                    if edge < self.size {
                        let (t, _) = self.cell(edge);
                        if t & 0x80 != 0 {
                            let h = edge - (t & 0x7f) as u32;
                            let (n, v) = self.cell(h);
                            let v = v.clone();
                            for k in 0..n as u32 {
                                let b = extract_byte(d, &v, k);
                                self.put_raw(h + k, 1, b);
                            }
                        }
                    }
                }
                if let Repr::Dense(dv) = &mut self.r {
                    let mut p = o as usize;
                    while p < end as usize {
                        let ci = p / CH;
                        let stop = ((ci + 1) * CH).min(end as usize);
                        let ch = Rc::make_mut(&mut dv[ci]);
                        for q in p..stop {
                            ch[q % CH] = NOCELL;
                        }
                        p = stop;
                    }
                }
            }
        }
    }

    pub fn write(&mut self, d: &Dom, o: u32, size: u32, v: Val) {
        // fast paths: exact overwrite
        match &mut self.r {
            Repr::Sparse(s) => {
                let i = s.partition_point(|e| e.0 < o);
                if i < s.len() && s[i].0 == o && s[i].1 as u32 == size {
                    s[i].2 = v;
                    return;
                }
            }
            Repr::Dense(dv) => {
                let p = o as usize;
                let c = &dv[p / CH][p % CH];
                if c.t as u32 == size {
                    Rc::make_mut(&mut dv[p / CH])[p % CH].v = v;
                    return;
                }
            }
        }
        self.clear(d, o, size);
        if !matches!(v, Val::Undef) {
            self.put_raw(o, size, v);
        }
    }

    /// values in [o, o+len) relative to o; border-straddling values split
    pub fn slice(&self, d: &Dom, o: u32, len: u32) -> Vec<(u32, u8, Val)> {
        let end = o + len;
        let mut out = vec![];
        match &self.r {
            Repr::Sparse(s) => {
                let mut i = s.partition_point(|e| e.0 + e.1 as u32 <= o);
                while i < s.len() && s[i].0 < end {
                    let (eo, es, v) = &s[i];
                    if *eo >= o && eo + *es as u32 <= end {
                        out.push((eo - o, *es, v.clone()));
                    } else {
                        for k in 0..*es as u32 {
                            if eo + k >= o && eo + k < end {
                                out.push((eo + k - o, 1, extract_byte(d, v, k)));
                            }
                        }
                    }
                    i += 1;
                }
            }
            Repr::Dense(_) => {
                let mut p = o;
                while p < end {
                    let (t, v) = self.cell(p);
                    if t == 0 {
                        p += 1;
                    } else if t & 0x80 == 0 && p + t as u32 <= end {
                        out.push((p - o, t, v.clone()));
                        p += t as u32;
                    } else {
                        out.push((p - o, 1, self.byte(d, p)));
                        p += 1;
                    }
                }
            }
        }
        out
    }

    pub fn put_slice(&mut self, d: &Dom, o: u32, len: u32, vals: Vec<(u32, u8, Val)>) {
        self.clear(d, o, len);
        for (p, s, v) in vals {
            self.put_raw(o + p, s as u32, v);
        }
    }

    pub fn fill(&mut self, d: &Dom, o: u32, len: u32, v: &Val) {
        self.clear(d, o, len);
        if let Repr::Dense(dv) = &mut self.r {
            // whole chunks share one allocation
            let cell = Cell { v: v.clone(), t: 1 };
            let full = Rc::new(vec![cell.clone(); CH]);
            let mut p = o as usize;
            let end = (o + len) as usize;
            while p < end {
                if p % CH == 0 && p + CH <= end {
                    dv[p / CH] = full.clone();
                    p += CH;
                } else {
                    Rc::make_mut(&mut dv[p / CH])[p % CH] = cell.clone();
                    p += 1;
                }
            }
        } else {
            for k in 0..len {
                self.put_raw(o + k, 1, v.clone());
            }
        }
    }

    /// list of differing cells between two stores of equal size: (offset,size,a,b);
    /// None if structure cannot be aligned
    /// wide constants in the object (its ends, if it is large), for ordering partitions
    pub fn constants(&self, out: &mut Vec<u64>) {
        let mut put = |n: u8, v: &Val| {
            if n > 1 && n & 0x80 == 0 {
                out.push(match v {
                    Val::C(c) => *c,
                    _ => u64::MAX,
                });
            }
        };
        match &self.r {
            Repr::Sparse(v) => v.iter().for_each(|(_, n, v)| put(*n, v)),
            Repr::Dense(d) => {
                let k = d.len();
                for (i, c) in d.iter().enumerate() {
                    if i == 0 || i + 1 == k {
                        c.iter().for_each(|c| put(c.t, &c.v));
                    }
                }
            }
        }
    }

    pub fn diff(&self, d: &Dom, o: &Store) -> Option<Vec<(u32, u8, Val, Val)>> {
        if self.size != o.size {
            return None;
        }
        let mut out = vec![];
        match (&self.r, &o.r) {
            (Repr::Sparse(a), Repr::Sparse(b)) => {
                let (mut i, mut j) = (0, 0);
                while i < a.len() || j < b.len() {
                    let ka = a.get(i).map(|e| e.0).unwrap_or(u32::MAX);
                    let kb = b.get(j).map(|e| e.0).unwrap_or(u32::MAX);
                    if ka == kb {
                        if a[i].1 == b[j].1 {
                            if a[i].2 != b[j].2 {
                                out.push((ka, a[i].1, a[i].2.clone(), b[j].2.clone()));
                            }
                            i += 1;
                            j += 1;
                            continue;
                        }
                        // different granularity: consume the longer one bytewise
                        let end = (ka + a[i].1 as u32).max(kb + b[j].1 as u32);
                        for p in ka..end {
                            let (x, y) = (self.byte(d, p), o.byte(d, p));
                            if x != y {
                                out.push((p, 1, x, y));
                            }
                        }
                        while i < a.len() && a[i].0 < end {
                            i += 1;
                        }
                        while j < b.len() && b[j].0 < end {
                            j += 1;
                        }
                        // entries may overrun `end`
                        if (i > 0 && a[i - 1].0 + a[i - 1].1 as u32 > end)
                            || (j > 0 && b[j - 1].0 + b[j - 1].1 as u32 > end)
                        {
                            return None;
                        }
                    } else if ka < kb {
                        if ka + a[i].1 as u32 > kb {
                            return None;
                        }
                        out.push((ka, a[i].1, a[i].2.clone(), Val::Undef));
                        i += 1;
                    } else {
                        if kb + b[j].1 as u32 > ka {
                            return None;
                        }
                        out.push((kb, b[j].1, Val::Undef, b[j].2.clone()));
                        j += 1;
                    }
                }
            }
            (Repr::Dense(a), Repr::Dense(b)) => {
                for c in 0..a.len() {
                    if Rc::ptr_eq(&a[c], &b[c]) {
                        continue;
                    }
                    for q in 0..CH {
                        let (x, y) = (&a[c][q], &b[c][q]);
                        if x.t == y.t {
                            if x.v != y.v {
                                out.push(((c * CH + q) as u32, x.t, x.v.clone(), y.v.clone()));
                            }
                        } else if x.t == 0 || y.t == 0 {
                            let t = x.t.max(y.t);
                            if t & 0x80 == 0 {
                                out.push(((c * CH + q) as u32, t, x.v.clone(), y.v.clone()));
                            }
                        } else {
                            return None;
                        }
                    }
                }
            }
            _ => return None,
        }
        Some(out)
    }
}
