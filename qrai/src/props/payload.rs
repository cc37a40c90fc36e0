//! Segments of the data stream: numeric, alphanumeric, byte, kanji, ECI; underflow; writer faults; UTF-8.
use super::decode::stats;
use super::ecc::{atoms_bits, table};
use super::*;
use crate::spec;

/// bits of a data stream, first bit first
#[derive(Clone, Default)]
pub struct Stream {
    pub bits: Vec<Bit>,
}
impl Stream {
    pub fn put(&mut self, v: u64, n: usize) -> &mut Self {
        for i in (0..n).rev() {
            self.bits.push(Bit::k(v >> i & 1 == 1));
        }
        self
    }
    /// `n`-bit field with value `start` + (unknown `free` low bits, atoms base..)
    pub fn field(&mut self, start: u64, free: usize, base: u32, n: usize) {
        for i in (0..n).rev() {
            self.bits.push(if i < free { Bit::atom(base + i as u32) } else { Bit::k(start >> i & 1 == 1) });
        }
    }
    pub fn codewords(&self, dc: usize) -> Vec<[Bit; 8]> {
        assert!(self.bits.len() <= dc * 8, "{} > {}", self.bits.len(), dc * 8);
        (0..dc).map(|i| std::array::from_fn(|j| self.bits.get(i * 8 + j).cloned().unwrap_or(Bit::Z))).collect()
    }
}

/// [0, limit) as aligned power-of-two pieces (start, free bits)
pub fn pieces(limit: u64) -> Vec<(u64, usize)> {
    let (mut a, mut r) = (0u64, vec![]);
    while a < limit {
        let mut f = if a == 0 { 63 } else { a.trailing_zeros() as usize };
        while a + (1 << f) > limit {
            f -= 1;
        }
        r.push((a, f));
        a += 1 << f;
    }
    r
}

const ALNUM: &[u8; 45] = b"0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ $%*+-./:";

pub fn class(v: usize) -> usize {
    if v <= 9 { 0 } else if v <= 26 { 1 } else { 2 }
}
/// width of the character count
pub fn count_bits(mode: u64, v: usize) -> usize {
    let c = class(v);
    match mode {
        1 => [10, 12, 14][c],
        2 => [9, 11, 13][c],
        4 => [8, 16, 16][c],
        8 => [8, 10, 12][c],
        _ => unreachable!(),
    }
}
pub fn kanji_code(d: u64) -> u64 {
    let x = (d / 0xc0) << 8 | d % 0xc0;
    if x <= 0x9ffc - 0x8140 { x + 0x8140 } else { x + 0xc140 }
}

/// message under construction
#[derive(Clone, Default)]
pub struct Msg {
    pub s: Stream,
    pub want: Vec<Val>,
}
impl Msg {
    fn tuple(&mut self, e: &Engine<'_>, digits: u32, radix: u64, bits: usize, rot: usize, chars: &dyn Fn(u64) -> u64) {
        let p = pieces(radix.pow(digits));
        let (start, free) = p[rot % p.len()];
        let base = e.dom.fresh_aligned(free.max(1) as u32);
        self.s.field(start, free, base, bits);
        for i in (0..digits).rev() {
            self.want.push(table(base, free as u32, |x| chars((start + x) / radix.pow(i) % radix)));
        }
    }
    pub fn numeric(&mut self, e: &Engine<'_>, v: usize, n: usize, rot: usize) -> &mut Self {
        self.s.put(1, 4).put(n as u64, count_bits(1, v));
        let c = |d: u64| d + 48;
        for i in 0..n / 3 {
            self.tuple(e, 3, 10, 10, rot + i, &c);
        }
        match n % 3 {
            2 => self.tuple(e, 2, 10, 7, rot, &c),
            1 => self.tuple(e, 1, 10, 4, rot, &c),
            _ => {}
        }
        self
    }
    pub fn alnum(&mut self, e: &Engine<'_>, v: usize, n: usize, rot: usize) -> &mut Self {
        self.s.put(2, 4).put(n as u64, count_bits(2, v));
        let c = |d: u64| ALNUM[d as usize] as u64;
        for i in 0..n / 2 {
            self.tuple(e, 2, 45, 11, rot + i, &c);
        }
        if n % 2 == 1 {
            self.tuple(e, 1, 45, 6, rot, &c);
        }
        self
    }
    pub fn bytes(&mut self, e: &Engine<'_>, v: usize, n: usize) -> &mut Self {
        self.s.put(4, 4).put(n as u64, count_bits(4, v));
        for _ in 0..n {
            let base = e.dom.fresh_aligned(8);
            self.s.field(0, 8, base, 8);
            self.want.push(mk_bits(atoms_bits(base, 8)));
        }
        self
    }
    pub fn kanji(&mut self, e: &Engine<'_>, v: usize, n: usize, rot: usize) -> &mut Self {
        self.s.put(8, 4).put(n as u64, count_bits(8, v));
        for i in 0..n {
            // five unknown bits, the upper eight vary with the position; avoids the three unused trail bytes
            let mut hi = ((rot + i) * 41) as u64 % 256;
            while (hi * 32 + 31) % 0xc0 > 0xbc {
                hi = (hi + 1) % 256;
            }
            let base = e.dom.fresh_aligned(5);
            self.s.field(hi * 32, 5, base, 13);
            self.want.push(table(base, 5, |x| kanji_code(hi * 32 + x) >> 8));
            self.want.push(table(base, 5, |x| kanji_code(hi * 32 + x) & 0xff));
        }
        self
    }
    /// designator of `k` bytes
    pub fn eci(&mut self, e: &Engine<'_>, k: usize) -> &mut Self {
        self.s.put(7, 4);
        let (prefix, free) = [(0u64, 7usize), (2 << 14, 14), (6 << 21, 21)][k - 1];
        let base = e.dom.fresh_aligned(free as u32);
        self.s.field(prefix, free, base, 8 * k);
        self
    }
    pub fn seg(&mut self, e: &Engine<'_>, v: usize, kind: usize, n: usize, rot: usize) -> &mut Self {
        match kind {
            0 => self.numeric(e, v, n, rot),
            1 => self.alnum(e, v, n, rot),
            2 => self.bytes(e, v, n),
            3 => self.kanji(e, v, n, rot),
            4 => self.eci(e, 1),
            5 => self.eci(e, 2),
            _ => self.eci(e, 3),
        }
    }
}
const KIND: [&str; 7] = ["numeric", "alphanumeric", "byte", "kanji", "ECI (1 byte)", "ECI (2 bytes)", "ECI (3 bytes)"];
const MODE: [u64; 4] = [1, 2, 4, 8];

/// longest segment of a kind in dc codewords
pub fn capacity(kind: usize, v: usize, bits: usize) -> usize {
    let h = 4 + count_bits(MODE[kind], v);
    if bits < h {
        return 0;
    }
    let b = bits - h;
    match kind {
        0 => b / 10 * 3 + if b % 10 >= 7 { 2 } else if b % 10 >= 4 { 1 } else { 0 },
        1 => b / 11 * 2 + if b % 11 >= 6 { 1 } else { 0 },
        2 => b / 8,
        _ => b / 13,
    }
    .min((1 << count_bits(MODE[kind], v)) - 1)
}

pub fn msg_case(v: usize, level: usize, m: u64, s: &Stream, expect: Vec<(Val, Exp)>, name: String) -> Case {
    let dc = spec::data_codewords(v, level);
    let enc = spec::encode_blocks(v, level, &s.codewords(dc));
    let n = spec::size(v);
    Case {
        entry: "__v::h_decode_to",
        args: vec![Val::C(n as u64)],
        n,
        cells: spec::place(v, level, m, &enc.stream, &Bit::Z),
        expect,
        name,
        ..Default::default()
    }
}
pub fn ok_case(v: usize, level: usize, m: u64, g: &Msg, name: String) -> Case {
    msg_case(v, level, m, &g.s, vec![(Val::C(1), Exp::Ok { meta: Some([v as u64, level as u64, m]), bytes: g.want.clone() })], name)
}

/// segment lengths examined for a version
fn lengths(kind: usize, v: usize, cap: usize, thorough: bool) -> Vec<usize> {
    let mut r: Vec<usize> = vec![cap];
    if thorough || v <= 12 {
        r.push(cap.saturating_sub(1));
    }
    let all = if thorough { cap.min(64) } else { match v { 1 | 2 => cap, 9 | 10 => 9, 26 | 27 => 3, _ if v <= 8 => 1, _ => 0 } };
    r.extend(0..=all.min(cap));
    if v > 8 && !thorough && all == 0 {
        r.remove(r.len() - 1);
    }
    if [9, 10, 26, 27, 40].contains(&v) || thorough {
        // powers of two and their neighbours exercise every bit of the count
        for p in 3..14 {
            if v > 20 && !thorough && p < 8 { continue; }
            for d in [-1i64, 0, 1] {
                let n = (1i64 << p) + d;
                if n as usize <= cap && (thorough || (d != 1 && (v < 20 || (p + kind) % 2 == (d + 1) as usize % 2))) {
                    r.push(n as usize);
                }
            }
        }
    }
    r.sort();
    r.dedup();
    r
}

fn lengths_prop<'tcx>(tcx: TyCtxt<'tcx>, job: &Job, rep: &mut Report, kinds: &[usize]) {
    for v in (1..=40).filter(|v| job.mine(*v)) {
        let mut b = Bench::new(tcx, job);
        b.e.cfg.max_states = 64;
        let level = 1; // L: largest capacity
        let dc = spec::data_codewords(v, level);
        for &k in kinds {
            for (i, n) in lengths(k, v, capacity(k, v, dc * 8), job.thorough()).into_iter().enumerate() {
                b.fresh();
                let mut g = Msg::default();
                g.seg(&b.e, v, k, n, i);
                b.case(&ok_case(v, level, (v + i) as u64 % 8, &g, format!("version {v}, {} segment of {n} unknown characters", KIND[k])), rep);
            }
            if v <= 3 {
                // every value of every tuple, first and last position
                let np = if k == 0 { 6 } else if k == 1 { 9 } else { 0 };
                for r in 0..np {
                    for n in if k == 0 { vec![3, 4, 5, 8] } else { vec![2, 3, 5] } {
                        b.fresh();
                        let mut g = Msg::default();
                        g.seg(&b.e, v, k, n, r);
                        b.case(&ok_case(v, level, r as u64 % 8, &g, format!("version {v}, {} segment of {n}, value cell {r}", KIND[k])), rep);
                    }
                }
                if k == 3 {
                    for pos in 0..2 {
                        b.fresh();
                        let mut g = Msg::default();
                        g.s.put(8, 4).put(2, 8);
                        let base = b.e.dom.fresh_aligned(13);
                        for p in 0..2 {
                            if p == pos {
                                g.s.field(0, 13, base, 13);
                                g.want.push(table(base, 13, |d| kanji_code(d) >> 8));
                                g.want.push(table(base, 13, |d| kanji_code(d) & 0xff));
                            } else {
                                g.s.put(0x1a3, 13);
                                g.want.push(Val::C(kanji_code(0x1a3) >> 8));
                                g.want.push(Val::C(kanji_code(0x1a3) & 0xff));
                            }
                        }
                        let mut c = ok_case(v, level, 3, &g, format!("version {v}, kanji segment, any 13-bit value at position {pos}"));
                        let e = c.expect.pop().unwrap().1;
                        c.expect = vec![(table(base, 13, |d| (d % 0xc0 <= 0xbc) as u64), e), (table(base, 13, |d| (d % 0xc0 > 0xbc) as u64), Exp::Any)];
                        b.case(&c, rep);
                    }
                }
            }
        }
        stats(&b, rep);
    }
}

pub fn c07<'tcx>(tcx: TyCtxt<'tcx>, job: &Job, rep: &mut Report) {
    lengths_prop(tcx, job, rep, &[0, 1]);
}
pub fn c08<'tcx>(tcx: TyCtxt<'tcx>, job: &Job, rep: &mut Report) {
    lengths_prop(tcx, job, rep, &[2, 3]);
}

/// unknown bits up to the end of the data
fn noise(e: &Engine<'_>, s: &mut Stream, upto: usize) {
    let n = upto - s.bits.len();
    let base = e.dom.fresh_aligned(n.max(1) as u32);
    s.bits.extend(atoms_bits(base, n as u32));
}

pub fn c09<'tcx>(tcx: TyCtxt<'tcx>, job: &Job, rep: &mut Report) {
    for v in (1..=40).filter(|v| job.mine(*v)) {
        let mut b = Bench::new(tcx, job);
        b.e.cfg.max_states = 300;
        let level = if v < 4 { 1 } else { (v * 7) % 4 };
        let bits = spec::data_codewords(v, level) * 8;
        let m = v as u64 % 8;
        // 1: sequences of segments, then a terminator followed by anything
        let big = v == 4 || v == 5 || v == 10 || job.thorough();
        let mut seqs: Vec<Vec<usize>> = vec![];
        for a in 0..7 {
            for c in 0..7 {
                if big || (v <= 20 && (a * 7 + c) % 40 == v % 40) || (v == 27 && a % 4 == c % 4 && a < 4) {
                    seqs.push(vec![a, c]);
                }
                if a != c && (v + a * 3 + c) % (if v > 20 { 41 } else { 23 }) == 0 {
                    seqs.push(vec![a, (a + c) % 4, c, (v + a) % 7]);
                }
            }
        }
        seqs.push(vec![v % 7, (v / 2) % 7, (v / 3) % 7, 2, 0]);
        for (i, q) in seqs.iter().enumerate() {
            b.fresh();
            let mut g = Msg::default();
            for (j, &k) in q.iter().enumerate() {
                let mut h = g.clone();
                h.seg(&b.e, v, k, 1 + (i + j) % 3, i + j);
                if h.s.bits.len() + 4 > bits {
                    break;
                }
                g = h;
            }
            g.s.put(0, 4);
            noise(&b.e, &mut g.s, bits);
            let names: Vec<&str> = q.iter().map(|k| KIND[*k]).collect();
            b.case(&ok_case(v, level, m, &g, format!("version {v} level {level}: {}, terminator, anything", names.join(", "))), rep);
        }
        // 2: any mode indicator after a byte segment / at the start
        for pre in 0..2 {
            b.fresh();
            let mut g = Msg::default();
            if pre == 1 {
                g.seg(&b.e, v, v % 4, 2, 0);
            }
            let base = b.e.dom.fresh_aligned(4);
            let want = g.want.clone();
            g.s.field(0, 4, base, 4);
            let set = |l: &'static [u64]| table(base, 4, move |x| l.contains(&x) as u64);
            let ex = vec![
                (set(&[0]), Exp::Ok { meta: None, bytes: want.clone() }),
                // the remaining bits are zero: empty segments and ECI 0 produce nothing, then the terminator
                (set(&[1, 2, 4, 7, 8]), Exp::Ok { meta: None, bytes: want }),
                (set(&[3, 5, 6, 9, 10, 11, 12, 13, 14, 15]), Exp::ErrAny(vec![4])),
            ];
            b.case(&msg_case(v, level, m, &g.s, ex, format!("version {v} level {level}: any mode indicator{}", if pre == 1 { " after a segment" } else { "" })), rep);
        }
        // 3: fewer than four bits left at the end
        let mut seen = [false; 4];
        for kind in [0usize, 1, 3] {
            let cap = capacity(kind, v, bits);
            for n in (0..=cap).rev().take(40) {
                if v > 10 && !job.thorough() && (seen.iter().any(|s| *s) && v % 5 != 0) {
                    break;
                }
                b.fresh();
                let mut g = Msg::default();
                g.seg(&b.e, v, kind, n, n);
                // second segment fills up to the end
                let left = bits - g.s.bits.len();
                if left >= 4 {
                    let k2 = [0usize, 1, 0][kind / 2 + kind % 2];
                    let n2 = capacity(k2, v, left);
                    if left < 4 + count_bits(MODE[k2], v) {
                        continue;
                    }
                    g.seg(&b.e, v, k2, n2, n);
                }
                let left = bits - g.s.bits.len();
                if left < 4 && !seen[left] {
                    seen[left] = true;
                    noise(&b.e, &mut g.s, bits);
                    b.case(&ok_case(v, level, m, &g, format!("version {v} level {level}: {left} bits left after the last segment")), rep);
                }
            }
        }
        stats(&b, rep);
    }
}

pub fn c10<'tcx>(tcx: TyCtxt<'tcx>, job: &Job, rep: &mut Report) {
    for v in (1..=40).filter(|v| job.mine(*v)) {
        let mut b = Bench::new(tcx, job);
        b.e.cfg.max_states = 30000;
        let level = if v <= 2 || v == 10 || v == 27 { 2 } else { (v * 5) % 4 };
        let bits = spec::data_codewords(v, level) * 8;
        let m = (v * 3) as u64 % 8;
        for kind in 0..4 {
            let w = count_bits(MODE[kind], v);
            // 1: exactly one character too many / exactly fitting, unknown data up to the very end
            let cap = capacity(kind, v, bits);
            if cap + 1 < 1 << w && (v <= 12 || (v + kind) % (if v > 24 { 12 } else { 6 }) == 0 || job.thorough()) {
                for over in [0u64, 1, 2] {
                    b.fresh();
                    let n = cap as u64 + over;
                    let mut g = Msg::default();
                    if over == 0 {
                        g.seg(&b.e, v, kind, cap, 0);
                        b.case(&ok_case(v, level, m, &g, format!("version {v} level {level}: {} segment of {n}, exactly fitting", KIND[kind])), rep);
                    } else {
                        g.s.put(MODE[kind], 4).put(n, w);
                        noise(&b.e, &mut g.s, bits);
                        b.case(&msg_case(v, level, m, &g.s, vec![(Val::C(1), Exp::ErrAny(vec![2]))], format!("version {v} level {level}: {} segment of {n} where {cap} fit", KIND[kind])), rep);
                    }
                }
            }
            // 2: any count at all
            if v <= 2 || v == 10 || v == 27 || job.thorough() {
                let w0 = w.min(12); // upper bits of the widest counts are set to one in a second case
                for hi in 0..=(w > w0) as u64 {
                    b.fresh();
                    let base = b.e.dom.fresh_aligned(w0 as u32);
                    let mut s = Stream::default();
                    s.put(MODE[kind], 4);
                    let top = if hi == 1 { ((1u64 << (w - w0)) - 1) << w0 } else { 0 };
                    s.field(top, w0, base, w);
                    let fits = move |n: u64| (n | top) <= cap as u64;
                    let ex = vec![
                        (table(base, w0 as u32, |n| fits(n) as u64), Exp::NoPanic),
                        (table(base, w0 as u32, |n| !fits(n) as u64), Exp::ErrAny(vec![2])),
                    ];
                    b.case(&msg_case(v, level, m, &s, ex, format!("version {v} level {level}: {} segment, any count", KIND[kind])), rep);
                }
            }
        }
        // 3: ECI designator cut off by the end of the data
        for k in 1..=3usize {
            for rem in [0usize, 1, 4, 7, 8, 12, 15, 16, 20, 23] {
                if rem >= 8 * k || (v > 4 && !job.thorough() && (v + rem) % 5 != 0) {
                    continue;
                }
                // filler: numeric/alphanumeric segments so that `rem` bits follow the mode indicator
                for kind in 0..2 {
                    let Some(mut g) = filler(&b, v, kind, bits - rem - 4) else { continue };
                    g.s.put(7, 4);
                    let p = [0u64, 2, 6][k - 1];
                    for i in 0..k.min(rem) {
                        g.s.bits.push(Bit::k(p >> (k - 1 - i) & 1 == 1));
                    }
                    if rem < k && p >> (k - 1 - rem.min(k - 1)) == 0 && rem > 0 {
                        continue;
                    }
                    noise(&b.e, &mut g.s, bits);
                    b.case(&msg_case(v, level, m, &g.s, vec![(Val::C(1), Exp::ErrAny(vec![2]))], format!("version {v} level {level}: ECI designator of {k} bytes with {rem} bits left")), rep);
                    break;
                }
            }
        }
        stats(&b, rep);
    }
}

/// two constant-length segments of exactly `bits` bits in total
fn filler<'tcx>(b: &Bench<'tcx>, v: usize, kind: usize, bits: usize) -> Option<Msg> {
    for other in [2usize, 0, 1, 3] {
        for n in 0..12 {
            b.fresh();
            let mut g = Msg::default();
            g.seg(&b.e, v, other, n, 1);
            if g.s.bits.len() + 4 + count_bits(MODE[kind], v) > bits {
                break;
            }
            let c = capacity(kind, v, bits - g.s.bits.len());
            g.seg(&b.e, v, kind, c, 2);
            if g.s.bits.len() == bits {
                return Some(g);
            }
        }
    }
    None
}

pub fn c11<'tcx>(tcx: TyCtxt<'tcx>, job: &Job, rep: &mut Report) {
    for v in (1..=40).filter(|v| job.mine(*v)) {
        let mut b = Bench::new(tcx, job);
        b.e.cfg.max_states = 300;
        let level = 1;
        let m = v as u64 % 8;
        // every segment kind, remainders included, and mixtures
        let mut msgs: Vec<Vec<(usize, usize)>> = vec![];
        for k in 0..4 {
            for n in 1..=(if k == 0 { 7 } else { 4 }) {
                msgs.push(vec![(k, n)]);
            }
        }
        msgs.push(vec![(0, 4), (1, 3), (2, 2), (3, 1)]);
        msgs.push(vec![(2, 3), (5, 0), (0, 2), (3, 1), (1, 1)]);
        msgs.push(vec![(3, 2), (2, 2), (1, 2), (0, 1)]);
        for (i, q) in msgs.iter().enumerate() {
            if !job.thorough() && i % 40 + 1 != v && !(v == 5 && q.len() > 2) {
                continue;
            }
            let vv = if q.len() > 2 { 4 } else { 1 + (i % 3) };
            let build = |b: &Bench<'tcx>| {
                b.fresh();
                let mut g = Msg::default();
                for (j, &(k, n)) in q.iter().enumerate() {
                    g.seg(&b.e, vv, k, n, i + j);
                }
                g
            };
            let len = build(&b).want.len();
            let names: Vec<String> = q.iter().map(|(k, n)| format!("{} x{n}", KIND[*k])).collect();
            // at the k-th request: accept / fail / accept nothing / accept one byte; elsewhere accept everything
            for at in 0..len {
                let g = build(&b);
                let base = b.e.dom.fresh_aligned(2);
                let mut c = ok_case(vv, level, m, &g, format!("{}: writer answers request {at} in any way", names.join(", ")));
                c.entry = "__v::h_decode_to_wf";
                let fine = c.expect.pop().unwrap().1;
                c.sched = vec![Val::C(0); at];
                c.sched.push(mk_bits(atoms_bits(base, 2)));
                // requests may be fewer than bytes: failing requests that are never made change nothing
                let nreq = self::requests(&b, &c).unwrap_or(len);
                if at >= nreq {
                    break;
                }
                c.expect = vec![
                    (table(base, 2, |x| (x == 0 || x == 3) as u64), fine),
                    (table(base, 2, |x| (x == 1 || x == 2) as u64), Exp::ErrPrefix(vec![1], g.want.clone())),
                ];
                b.case(&c, rep);
            }
            // one byte at a time, interruptions in between
            for (what, sched) in [("one byte at a time", vec![3u64; 2 * len]), ("interrupted before every request", (0..4 * len).map(|i| if i % 2 == 0 { 4 } else { 0 }).collect()), ("one byte at a time with interruptions", (0..4 * len).map(|i| if i % 2 == 0 { 4 } else { 3 }).collect())] {
                let g = build(&b);
                let mut c = ok_case(vv, level, m, &g, format!("{}: writer accepts {what}", names.join(", ")));
                c.entry = "__v::h_decode_to_wf";
                c.sched = sched.into_iter().map(Val::C).collect();
                b.case(&c, rep);
            }
        }
        stats(&b, rep);
    }
}
/// number of write requests when everything is accepted
fn requests<'tcx>(b: &Bench<'tcx>, c: &Case) -> Option<usize> {
    let outs = b.run(c.entry, c.args.clone(), grid_input(c.n, c.cells.clone(), vec![], vec![], false, vec![])).ok()?;
    outs.iter().map(|(st, _)| st.outs(100).len()).max()
}

fn utf8(b: &[u64]) -> bool {
    std::str::from_utf8(&b.iter().map(|x| *x as u8).collect::<Vec<_>>()).is_ok()
}

pub fn c13<'tcx>(tcx: TyCtxt<'tcx>, job: &Job, rep: &mut Report) {
    // patterns of bytes: constant, or unknown in the marked low bits
    // (start, free bits) per byte; at most 14 unknown bits in total
    let mut pats: Vec<Vec<(u64, usize)>> = vec![vec![], vec![(0, 8)], vec![(0x41, 0), (0, 8)], vec![(0, 8), (0x80, 2)], vec![(0xc0, 5), (0, 8)]];
    for lead in [0xc0u64, 0xc2, 0xdf] {
        pats.push(vec![(lead, 1), (0, 8)]);
        pats.push(vec![(0x41, 0), (lead, 1), (0, 8), (0x42, 0)]);
    }
    for lead in [0xe0u64, 0xe2, 0xec, 0xee] {
        pats.push(vec![(lead, 1), (0, 8), (0x80, 0)]);
        pats.push(vec![(lead, 1), (0xa0, 0), (0, 8)]);
        pats.push(vec![(lead, 1), (0x80, 6), (0xbf, 0)]);
        pats.push(vec![(lead, 1), (0x90, 0)]);
    }
    for lead in [0xf0u64, 0xf2, 0xf4, 0xf8, 0xfe] {
        pats.push(vec![(lead, 1), (0, 8), (0x80, 0), (0x80, 0)]);
        pats.push(vec![(lead, 1), (0x90, 0), (0, 8), (0x80, 0)]);
        pats.push(vec![(lead, 1), (0x90, 0), (0x80, 0), (0, 8)]);
        pats.push(vec![(lead, 1), (0x90, 0), (0x80, 0)]);
        pats.push(vec![(0x61, 0), (lead, 1), (0x80, 6), (0x80, 2), (0xbf, 0), (0x7a, 0)]);
    }
    for i in 0..12u64 {
        // ascii runs of various lengths around one unknown byte (block-wise validation)
        let mut p = vec![(0x61 + i, 0); (i * 3) as usize];
        p.push((0, 8));
        p.extend(vec![(0x30, 0); (17 - i) as usize]);
        pats.push(p);
    }
    for (i, p) in pats.iter().enumerate() {
        if !job.mine(i % 40 + 1) {
            continue;
        }
        let mut b = Bench::new(tcx, job);
        b.e.cfg.max_states = 5000;
        let (v, level) = if p.len() > 15 { (4, 1) } else { (1, 1) };
        let mut g = Msg::default();
        g.s.put(4, 4).put(p.len() as u64, 8);
        let total: usize = p.iter().map(|x| x.1).sum();
        let base = b.e.dom.fresh_aligned(total.max(1) as u32);
        let mut o = 0;
        for &(s, f) in p {
            g.s.field(s, f, base + o as u32, 8);
            let bits: Vec<Bit> = (0..8).map(|i| if i < f { Bit::atom(base + (o + i) as u32) } else { Bit::k(s >> i & 1 == 1) }).collect();
            g.want.push(mk_bits(bits));
            o += f;
        }
        let member = |x: u64| {
            let mut o = 0;
            p.iter().map(|&(s, f)| { let r = s | (x >> o & mask(f as u32)); o += f; r }).collect::<Vec<u64>>()
        };
        let good = table(base, total as u32, |x| utf8(&member(x)) as u64);
        let bad = table(base, total as u32, |x| !utf8(&member(x)) as u64);
        let mut c = ok_case(v, level, (i % 8) as u64, &g, format!("decode of {} bytes {:x?} (start, unknown low bits)", p.len(), p));
        c.entry = "__v::h_decode";
        let fine = c.expect.pop().unwrap().1;
        c.expect = vec![(good, fine), (bad, Exp::ErrAny(vec![9]))];
        c.expect.retain(|(k, _)| *k != Val::C(0));
        b.case(&c, rep);
        stats(&b, rep);
    }
    // errors are those of decode_to
    if job.mine(1) {
        let b = Bench::new(tcx, job);
        for n in [0u64, 17, 20, 181, 1000] {
            let c = Case { entry: "__v::h_decode", args: vec![Val::C(n)], expect: vec![(Val::C(1), Exp::ErrAny(vec![7, 8]))], name: format!("decode of a grid of size {n}"), ..Default::default() };
            b.case(&c, rep);
        }
        for (mode, code) in [(3u64, 4u64), (15, 4), (4, 2), (1, 2), (8, 2), (2, 2)] {
            b.fresh();
            let mut s = Stream::default();
            s.put(mode, 4);
            noise_ones(&mut s, 19 * 8);
            let mut c = msg_case(1, 1, 2, &s, vec![(Val::C(1), Exp::ErrAny(vec![code]))], format!("decode of a faulty payload, mode {mode}"));
            c.entry = "__v::h_decode";
            b.case(&c, rep);
        }
        for other in 0..2 {
            let gf = spec::Gf::new();
            let s = super::ecc::damaged(&b, 1, 1, 4, &|_, len| { let mut s = vec![0u8; 7]; s[3] = 9; gf.damage_with(&s, len) }, true);
            let mut cells = s.cells;
            if other == 1 {
                let d = spec::dead_word(8);
                spec::set_format(1, &mut cells, &|i| Bit::k(d >> i & 1 == 1), &|i| Bit::k(d >> i & 1 == 1));
            }
            let c = Case { entry: "__v::h_decode", args: vec![Val::C(21)], n: 21, cells, expect: vec![(Val::C(1), Exp::ErrAny(vec![if other == 0 { 5 } else { 6 }]))], name: "decode of an unreadable symbol".into(), ..Default::default() };
            b.case(&c, rep);
        }
        stats(&b, rep);
    }
}
fn noise_ones(s: &mut Stream, upto: usize) {
    while s.bits.len() < upto {
        s.bits.push(Bit::O);
    }
}
