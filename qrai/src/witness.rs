//! Members of a partition: an alarm is raised only together with a concrete member of the
//! abstract input that satisfies every condition on the partition's path.
use crate::guard::*;
use crate::val::*;
use std::collections::HashMap;

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0.wrapping_mul(0x2545f4914f6cdd1d)
    }
}

/// assignment of atoms; atoms not in the map come from a hash of their number
#[derive(Clone)]
pub struct Asg {
    pub fixed: HashMap<u32, bool>,
    pub salt: u64,
}
impl Asg {
    pub fn get(&self, a: u32) -> bool {
        if let Some(b) = self.fixed.get(&a) {
            return *b;
        }
        if self.salt == 0 {
            return false;
        }
        let mut x = (a as u64 + 1).wrapping_mul(0x9e3779b97f4a7c15) ^ self.salt.wrapping_mul(0xbf58476d1ce4e5b9);
        x ^= x >> 29;
        x = x.wrapping_mul(0x94d049bb133111eb);
        x >> 37 & 1 == 1
    }
    pub fn lin(&self, l: &Lin) -> bool {
        let mut r = false;
        for &(w, m) in &l.w {
            let mut m = m;
            while m != 0 {
                let b = m.trailing_zeros();
                r ^= self.get(w * 64 + b);
                m &= m - 1;
            }
        }
        r
    }
    pub fn bit(&self, b: &Bit) -> bool {
        match b {
            Bit::Z => false,
            Bit::O => true,
            Bit::F(l, c) => self.lin(l) ^ c,
        }
    }
    pub fn val(&self, v: &Val) -> Option<u64> {
        match v {
            Val::C(c) => Some(*c),
            Val::B(b) => Some(b.iter().enumerate().fold(0, |a, (i, x)| a | (self.bit(x) as u64) << i)),
            Val::T(t) => {
                let i = t.basis.iter().enumerate().fold(0usize, |a, (i, l)| a | (self.lin(l) as usize) << i);
                Some(t.vals[i])
            }
            _ => None,
        }
    }
}

/// a member of the partition, or None if none was found
pub fn sample(g: &Guard, rng: &mut Rng, zero: bool) -> Option<Asg> {
    let mut sys = eqs(g).cloned().unwrap_or_default();
    if let Some(n) = g {
        // the narrowest conditions first
        let mut cons: Vec<_> = n.cons.iter().collect();
        cons.sort_by_key(|c| c.ok.iter().filter(|x| **x).count() << 16 >> c.basis.len());
        for c in cons {
            let idx: Vec<usize> = (0..c.ok.len()).filter(|&i| c.ok[i]).collect();
            if idx.is_empty() {
                return None;
            }
            let mut done = false;
            // some at random, then all
            for t in 0..64 + idx.len() {
                let k = if t >= 64 { idx[t - 64] } else if t < idx.len() && t < 8 && zero { idx[t] } else { idx[rng.next() as usize % idx.len()] };
                let mut s2 = sys.clone();
                if c.basis.iter().enumerate().all(|(j, l)| s2.add(l, k >> j & 1 == 1)) {
                    sys = s2;
                    done = true;
                    break;
                }
            }
            if !done {
                return None;
            }
        }
    }
    let mut a = Asg { fixed: HashMap::new(), salt: if zero { 0 } else { rng.next() | 1 } };
    for (p, l, c) in sys.rows.iter().rev() {
        a.fixed.insert(*p, false);
        let v = a.lin(l) ^ c;
        a.fixed.insert(*p, v);
    }
    // every condition on the way
    let mut n = g.clone();
    while let Some(x) = n {
        match &x.cond {
            Some(c) => {
                if a.val(c).map(|v| v & 1) != Some(1) && a.val(c).map_or(true, |v| v == 0) {
                    return None;
                }
            }
            None => return None,
        }
        n = x.parent.clone();
    }
    Some(a)
}
