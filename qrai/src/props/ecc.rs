//! Format information, error correction, mirrored reading.
use super::*;
use super::decode::{full_payload, stats};
use crate::spec::{self, Gf};
use std::rc::Rc;

pub fn atoms_bits(base: u32, n: u32) -> Vec<Bit> {
    (0..n).map(|i| Bit::atom(base + i)).collect()
}
/// a value given as a function of consecutive atoms
pub fn table(base: u32, n: u32, f: impl Fn(u64) -> u64) -> Val {
    let basis = Rc::new((0..n).map(|i| Rc::new(Lin::atom(base + i))).collect::<Vec<_>>());
    norm_tab(Tab { basis, vals: (0..1u64 << n).map(f).collect() })
}
/// bits (least significant first) of the format word of symbolic data bits (least significant first)
fn format_bits(d: &[Bit]) -> Vec<Bit> {
    let c = spec::format_word(0);
    (0..15)
        .map(|i| {
            let mut b = Bit::k(c >> i & 1 == 1);
            for k in 0..5 {
                if (spec::format_word(1 << k) ^ c) >> i & 1 == 1 {
                    b = b.xor(&d[k]);
                }
            }
            b
        })
        .collect()
}
fn kbits(w: u32) -> Vec<Bit> {
    (0..15).map(|i| Bit::k(w >> i & 1 == 1)).collect()
}
fn meta_out(v: usize, lev: Val, m: Val) -> Exp {
    Exp::Out(vec![(10, vec![Val::C(v as u64)]), (11, vec![lev]), (12, vec![m])])
}
fn fmt_case(v: usize, c1: Vec<Bit>, c2: Vec<Bit>, expect: Vec<(Val, Exp)>, name: String) -> Case {
    let n = spec::size(v);
    let mut cells = vec![Bit::Z; n * n];
    spec::set_format(v, &mut cells, &|i| c1[i].clone(), &|i| c2[i].clone());
    Case { entry: "__v::h_raw", args: vec![Val::C(n as u64)], n, cells, expect, name, ..Default::default() }
}

pub fn c04<'tcx>(tcx: TyCtxt<'tcx>, job: &Job, rep: &mut Report) {
    // a lightest member of each of the 1024 cosets of the 32 valid words
    let mut leaders: Vec<u32> = vec![];
    let mut seen = std::collections::HashSet::new();
    let mut all: Vec<u32> = (0..1 << 15).collect();
    all.sort_by_key(|e: &u32| e.count_ones());
    for e in all {
        let key = (0..32).map(|d| e ^ spec::format_word(d) ^ spec::format_word(0)).min().unwrap();
        if seen.insert(key) {
            leaders.push(e);
        }
    }
    for v in (1..=40).filter(|v| job.mine(*v)) {
        let b = Bench::new(tcx, job);
        // symbolic valid word plus a constant pattern: one pattern per coset covers every content of a copy
        for (idx, &e) in leaders.iter().enumerate() {
            let home = idx % 12 + 1;
            if !(job.thorough() && v <= 14 || v == home || (v > 12 && (idx * 7 + v) % 512 == 0) || [0, 0x4081, 0x1200].contains(&e)) {
                continue;
            }
            for copy in 0..2 {
                b.fresh();
                let a = b.e.dom.fresh_aligned(5);
                let mut w = format_bits(&atoms_bits(a, 5));
                for i in 0..15 {
                    if e >> i & 1 == 1 {
                        w[i] = w[i].not();
                    }
                }
                let lev = table(a, 5, |d| d >> 3);
                let m = table(a, 5, |d| d & 7);
                let near = e.count_ones() <= 3;
                let open = spec::format_open(spec::format_word(0) ^ e);
                let dead = kbits(spec::dead_word(e + v as u32));
                let od = (e + 7 * v as u32) % 32;
                // the other copy: uncorrectable, or (for the first copy) a different valid word that must be ignored
                let (c1, c2) = if copy == 0 { (w, kbits(spec::format_word(od) ^ 0x0210)) } else { (dead, w) };
                let ex = if near {
                    meta_out(v, lev, m)
                } else if open {
                    Exp::NoPanic
                } else if copy == 0 {
                    meta_out(v, Val::C((od >> 3) as u64), Val::C((od & 7) as u64))
                } else {
                    Exp::Err(vec![6])
                };
                let c = fmt_case(v, c1, c2, vec![(Val::C(1), ex)], format!("version {v}, format copy {}: any valid word with bits {e:#06x} inverted", copy + 1));
                b.case(&c, rep);
            }
        }
        stats(&b, rep);
    }
}

/// symbol with unknown data whose codewords are damaged by `dmg[block]`; transposed reading is refused at the format
pub struct Sym {
    pub n: usize,
    pub cells: Vec<Bit>,
    pub want: Vec<Val>,
    pub k: Bit,
}
pub fn damaged<'tcx>(b: &Bench<'tcx>, v: usize, level: usize, m: u64, dmg: &dyn Fn(usize, usize) -> Vec<u8>, oneway: bool) -> Sym {
    b.fresh();
    let (data, want, k) = full_payload(&b.e, v, level);
    let mut enc = spec::encode_blocks(v, level, &data);
    let d: Vec<Vec<u8>> = enc.blocks.iter().enumerate().map(|(i, x)| dmg(i, x.len())).collect();
    for (i, &(bk, p)) in enc.origin.iter().enumerate() {
        if d[bk][p] != 0 {
            enc.stream[i] = spec::damage(&enc.stream[i], d[bk][p]);
        }
    }
    let n = spec::size(v);
    let mut cells = spec::place(v, level, m, &enc.stream, &Bit::Z);
    if oneway {
        let w = spec::oneway_word((level as u32) << 3 | m as u32);
        let dd = spec::dead_word(v as u32);
        spec::set_format(v, &mut cells, &|i| Bit::k(w >> i & 1 == 1), &|i| Bit::k(dd >> i & 1 == 1));
    }
    Sym { n, cells, want, k }
}

pub fn transpose(n: usize, c: &[Bit]) -> Vec<Bit> {
    (0..n * n).map(|i| c[(i % n) * n + i / n].clone()).collect()
}

/// pseudo-random damage of weight w over the positions start, start+stride, ...
fn spread(len: usize, w: usize, first: usize, salt: u64) -> Vec<u8> {
    let mut r = Rng(salt.wrapping_mul(0x9e3779b97f4a7c15) | 1);
    r.next();
    let mut e = vec![0u8; len];
    for i in 0..w {
        let p = (first + i) % len;
        e[p] = (r.next() % 255) as u8 + 1;
    }
    e
}
/// damage at scattered positions
fn scatter(len: usize, w: usize, salt: u64) -> Vec<u8> {
    let mut r = Rng(salt.wrapping_mul(0x9e3779b97f4a7c15) | 1);
    r.next();
    let mut e = vec![0u8; len];
    let mut n = 0;
    while n < w {
        let p = r.next() as usize % len;
        if e[p] == 0 {
            e[p] = (r.next() % 255) as u8 + 1;
            n += 1;
        }
    }
    e
}

pub fn c05<'tcx>(tcx: TyCtxt<'tcx>, job: &Job, rep: &mut Report) {
    let gf = Gf::new();
    if !job.public {
        let mut b = Bench::new(tcx, job);
        let kinds = if job.thorough() { nopanic::block_kinds() } else { nopanic::extreme_kinds() };
        for (i, (bs, dw)) in kinds.into_iter().enumerate() {
            if job.mine(41 + i % 32) {
                nopanic::block_case(&mut b, bs, dw, true, rep);
            }
        }
        stats(&b, rep);
    }
    for v in (1..=40).filter(|v| job.mine(*v)) {
        let mut b = Bench::new(tcx, job);
        b.e.cfg.max_states = 64;
        for level in 0..4usize {
            if !job.public {
                if let Some(bk) = nopanic::split_case(&mut b, v, level, true, rep) {
                    ignored_block(&b, v, level, bk, rep);
                }
            }
            if v > 10 && !job.thorough() && ((v + level) % 4 != 0 || v > 24 && v % 2 == 0) {
                continue;
            }
            let (_, nb, ec, _, _) = spec::block_info(v, level);
            // syndrome vectors that no damage of at most ec/2 codewords has
            let mut kinds: Vec<(String, Box<dyn Fn(usize, usize) -> Vec<u8>>)> = vec![];
            let js: Vec<usize> = if v <= 2 || job.thorough() { (0..ec).collect() } else { vec![ec - 1, (v * 5 + level) % ec] };
            for j in js {
                let bk = if j % 2 == 0 { nb - 1 } else { (v + j) % nb };
                let gf = Gf::new();
                kinds.push((
                    format!("only parity check {j} of block {bk} fails"),
                    Box::new(move |i, len| {
                        if i != bk {
                            return vec![0; len];
                        }
                        let mut s = vec![0u8; ec];
                        s[j] = (j * 37 + 1) as u8 | 1;
                        gf.damage_with(&s, len)
                    }),
                ));
            }
            for w in [ec / 2 + 1, ec / 2 + 2, ec] {
                let bk = (v + w) % nb;
                kinds.push((
                    format!("{w} damaged codewords in block {bk}"),
                    Box::new(move |i, len| {
                        if i != bk {
                            return vec![0; len];
                        }
                        let gf = Gf::new();
                        (0..).map(|s| scatter(len, w.min(len), s * 31 + v as u64 + w as u64)).find(|e| !gf.correctable(&gf.syndromes(e, ec), len)).unwrap()
                    }),
                ));
            }
            for (name, f) in &kinds {
                // oracle: not within reach of any codeword
                let m = (v + level) as u64 % 8;
                let s = damaged(&b, v, level, m, &**f, true);
                let (_, _, _, sl, short) = spec::block_info(v, level);
                for i in 0..nb {
                    let len = ec + if i < short { sl } else { sl + 1 };
                    let e = f(i, len);
                    if e.iter().any(|&x| x != 0) {
                        assert!(!gf.correctable(&gf.syndromes(&e, ec), len), "{name}");
                    }
                }
                let c = Case {
                    entry: "__v::h_decode_to",
                    args: vec![Val::C(s.n as u64)],
                    n: s.n,
                    cells: s.cells,
                    expect: vec![(Val::C(1), Exp::ErrAny(vec![5]))],
                    name: format!("version {v} level {level}, any data, {name}"),
                    ..Default::default()
                };
                b.case(&c, rep);
            }
        }
        stats(&b, rep);
    }
}

/// does a symbol with this block damaged beyond repair get through?
fn ignored_block<'tcx>(b: &Bench<'tcx>, v: usize, level: usize, bk: usize, rep: &mut Report) {
    let (_, _, ec, _, _) = spec::block_info(v, level);
    let f = |i: usize, len: usize| {
        if i != bk {
            return vec![0; len];
        }
        let gf = Gf::new();
        let w = ec / 2 + 2;
        (0..).map(|s| scatter(len, w.min(len), s * 31 + v as u64 + w as u64)).find(|e| !gf.correctable(&gf.syndromes(e, ec), len)).unwrap()
    };
    let s = damaged(b, v, level, v as u64 % 8, &f, true);
    let c = Case {
        entry: "__v::h_decode_to",
        args: vec![Val::C(s.n as u64)],
        n: s.n,
        cells: s.cells,
        expect: vec![(Val::C(1), Exp::ErrAny(vec![5]))],
        name: format!("version {v} level {level}, any data, block {bk} damaged beyond repair"),
        ..Default::default()
    };
    match b.attempt(&c, rep, true) {
        Verdict::Violation(s, w, m) => rep.violation_with(&s, &w, &m),
        _ => rep.undecided(&format!("version {v} level {level}: it is not clear how block {bk} is checked")),
    }
}

fn repair_case<'tcx>(b: &Bench<'tcx>, v: usize, level: usize, m: u64, s: Sym, name: String, rep: &mut Report) {
    let c = Case {
        entry: "__v::h_decode_to",
        args: vec![Val::C(s.n as u64)],
        n: s.n,
        cells: s.cells,
        expect: vec![
            (boolv(s.k.not()), Exp::Ok { meta: Some([v as u64, level as u64, m]), bytes: s.want }),
            (boolv(s.k), Exp::ErrAny(vec![2])),
        ],
        name,
        ..Default::default()
    };
    b.case(&c, rep);
}

pub fn c06<'tcx>(tcx: TyCtxt<'tcx>, job: &Job, rep: &mut Report) {
    for v in (1..=40).filter(|v| job.mine(*v)) {
        let mut b = Bench::new(tcx, job);
        b.e.cfg.max_states = 600;
        for level in 0..4usize {
            if !job.thorough() && (v > 20 && (v + level) % 4 != 0 || v > 10 && (v + level) % 2 != 0) {
                continue;
            }
            let (_, nb, ec, sl, _) = spec::block_info(v, level);
            let t = ec / 2;
            let len = sl + ec;
            // windows of t consecutive codewords that together cover the block; block i of round r takes window i + r * nb
            let win = len.div_ceil(t.max(1)) + 1;
            let rounds = if job.thorough() { win.div_ceil(nb).max(2) + 4 } else if v <= 3 { win + 2 } else if v <= 8 { 2 } else { 1 };
            let win0 = (v * 7 + level * 3) % win;
            for r in 0..rounds {
                let m = (v + level * 3 + r) as u64 % 8;
                let scat = r >= win.div_ceil(nb) && rounds > 1;
                let f = |i: usize, len: usize| {
                    // large symbols: the last block and every sixth
                    if v > 20 && !job.thorough() && i + 1 != nb && (i + v) % 6 != 0 {
                        return vec![0; len];
                    }
                    let salt = (v * 1000 + level * 100 + r * 17 + i) as u64;
                    if scat || (rounds == 1 && i % 3 == 2) {
                        return scatter(len, t, salt);
                    }
                    // aligned to the end of the block so that its last codeword is covered
                    let w = (win0 + i + r * nb) % win;
                    spread(len, t, (len * 4 - (w + 1) * t) % len, salt)
                };
                let s = damaged(&b, v, level, m, &f, false);
                repair_case(&b, v, level, m, s, format!("version {v} level {level}, any data, {t} damaged codewords in every block (set {r})"), rep);
            }
            // one damaged codeword, unknown damage
            if v <= 2 || (job.thorough() && v <= 6) {
                let step = if job.thorough() { 1 } else { 5 };
                for p in (0..len).rev().step_by(step) {
                    let m = (v + p) as u64 % 8;
                    b.fresh();
                    let a = b.e.dom.fresh_aligned(64);
                    let (dc, w) = (spec::data_codewords(v, level), atoms_bits(a, 8));
                    // payload: fixed bytes
                    let (data, want) = fixed_payload(v, dc, (p + level) as u64);
                    let mut enc = spec::encode_blocks(v, level, &data);
                    for (i, &(bk, q)) in enc.origin.iter().enumerate() {
                        if q == p && bk == nb - 1 {
                            enc.stream[i] = std::array::from_fn(|j| enc.stream[i][j].xor(&w[j]));
                        }
                    }
                    let n = spec::size(v);
                    let c = Case {
                        entry: "__v::h_decode_to",
                        args: vec![Val::C(n as u64)],
                        n,
                        cells: spec::place(v, level, m, &enc.stream, &Bit::Z),
                        expect: vec![(Val::C(1), Exp::Ok { meta: Some([v as u64, level as u64, m]), bytes: want })],
                        name: format!("version {v} level {level}, codeword {p} damaged in any way"),
                        ..Default::default()
                    };
                    b.case(&c, rep);
                }
            }
        }
        stats(&b, rep);
    }
}

/// byte-mode message of constants filling dc codewords
pub fn fixed_payload(v: usize, dc: usize, salt: u64) -> (Vec<[Bit; 8]>, Vec<Val>) {
    let nb = if v <= 9 { 8 } else { 16 };
    let cap = (dc * 8 - 4 - nb) / 8;
    let mut r = Rng(salt * 977 + 12345);
    let mut s = super::payload::Stream::default();
    s.put(4, 4).put(cap as u64, nb);
    let mut want = vec![];
    for _ in 0..cap {
        let x = r.next() >> 13 & 0xff;
        s.put(x, 8);
        want.push(Val::C(x));
    }
    (s.codewords(dc), want)
}

pub fn c12<'tcx>(tcx: TyCtxt<'tcx>, job: &Job, rep: &mut Report) {
    for v in (1..=40).filter(|v| job.mine(*v)) {
        let mut b = Bench::new(tcx, job);
        b.e.cfg.max_states = 64;
        for level in 0..4usize {
            if v > 8 && !job.thorough() && (v * 3 + level) % 4 != 0 {
                continue;
            }
            let (_, nb, ec, _, _) = spec::block_info(v, level);
            let blocks: Vec<usize> = if nb <= 4 || job.thorough() { (0..nb).collect() } else { vec![nb - 1, (v * 5 + level) % nb] };
            for bk in blocks {
                let gf = Gf::new();
                let j = (v + bk) % ec;
                let f = |i: usize, len: usize| {
                    if i != bk {
                        return vec![0; len];
                    }
                    let mut s = vec![0u8; ec];
                    s[j] = 0x5d;
                    gf.damage_with(&s, len)
                };
                let m = (v + bk) as u64 % 8;
                let s = damaged(&b, v, level, m, &f, true);
                let c = Case {
                    entry: "__v::h_decode_to",
                    args: vec![Val::C(s.n as u64)],
                    n: s.n,
                    cells: s.cells,
                    expect: vec![(Val::C(1), Exp::Err(vec![5]))],
                    name: format!("version {v} level {level}, any data, block {bk} uncorrectable"),
                    ..Default::default()
                };
                b.case(&c, rep);
            }
            // format information unusable
            let mut s = damaged(&b, v, level, v as u64 % 8, &|_, len| vec![0; len], true);
            let d = spec::dead_word(v as u32 + 1);
            spec::set_format(v, &mut s.cells, &|i| Bit::k(d >> i & 1 == 1), &|i| Bit::k(d >> i & 1 == 1));
            let c = Case {
                entry: "__v::h_decode_to",
                args: vec![Val::C(s.n as u64)],
                n: s.n,
                cells: s.cells,
                expect: vec![(Val::C(1), Exp::Err(vec![6]))],
                name: format!("version {v} level {level}, any data, format information uncorrectable"),
                ..Default::default()
            };
            b.case(&c, rep);
        }
        stats(&b, rep);
    }
}

pub fn c14<'tcx>(tcx: TyCtxt<'tcx>, job: &Job, rep: &mut Report) {
    for v in (1..=40).filter(|v| job.mine(*v)) {
        let mut b = Bench::new(tcx, job);
        b.e.cfg.max_states = 200;
        for level in 0..4usize {
            if v > 6 && !job.thorough() && (v + level) % 4 != 1 {
                continue;
            }
            let m = (v * 5 + level) as u64 % 8;
            let nodmg = |_: usize, len: usize| vec![0u8; len];
            // 1: transposed, plain format reading refused
            let s = damaged(&b, v, level, m, &nodmg, true);
            let (n, c0, want, k) = (s.n, s.cells, s.want, s.k);
            let ok = |cells: Vec<Bit>, name: String| Case {
                entry: "__v::h_decode_to",
                args: vec![Val::C(n as u64)],
                n,
                cells,
                expect: vec![
                    (boolv(k.not()), Exp::Ok { meta: Some([v as u64, level as u64, m]), bytes: want.clone() }),
                    (boolv(k.clone()), Exp::ErrAny(vec![2])),
                ],
                name,
                ..Default::default()
            };
            b.case(&ok(transpose(n, &c0), format!("version {v} level {level} transposed, any data")), rep);
            // 2: both readings fail: the plain error
            let (_, nb, ec, _, _) = spec::block_info(v, level);
            let gf = Gf::new();
            let bad = |i: usize, len: usize| {
                if i != v % nb {
                    return vec![0; len];
                }
                let mut s = vec![0u8; ec];
                s[v % ec] = 0x71;
                gf.damage_with(&s, len)
            };
            let s = damaged(&b, v, level, m, &bad, true);
            let err = |cells: Vec<Bit>, codes: Vec<u64>, name: String| Case {
                entry: "__v::h_decode_to",
                args: vec![Val::C(n as u64)],
                n,
                cells,
                expect: vec![(Val::C(1), Exp::Err(codes))],
                name,
                ..Default::default()
            };
            b.case(&err(transpose(n, &s.cells), vec![6], format!("version {v} level {level}, plain format unreadable, transposed data uncorrectable")), rep);
            b.case(&err(s.cells, vec![5], format!("version {v} level {level}, plain data uncorrectable, transposed format unreadable")), rep);
            // 3: plain format readable, plain data not
            let dc = spec::data_codewords(v, level);
            if v <= 12 || job.thorough() {
                for mm in 0..8u32 {
                    let w = spec::format_word((level as u32) << 3 | mm);
                    if spec::format_decode(spec::reverse15(w)).is_none() || (v > 3 && (mm as usize + v) % 3 != 0) {
                        continue;
                    }
                    b.fresh();
                    let a = b.e.dom.fresh_aligned(64);
                    let (mut data, mut want) = fixed_payload(v, dc, (v * 8 + level) as u64);
                    // two unknown bits in the last character
                    let hdr = if v <= 9 { 12 } else { 20 };
                    let cap = (dc * 8 - hdr) / 8;
                    for i in 0..2 {
                        let bp = hdr + cap * 8 - 1 - i;
                        let bit = data[bp / 8][bp % 8].xor(&Bit::atom(a + i as u32));
                        data[bp / 8][bp % 8] = bit;
                    }
                    let last: Vec<Bit> = (0..8).map(|i| { let bp = hdr + (cap - 1) * 8 + i; data[bp / 8][bp % 8].clone() }).collect();
                    *want.last_mut().unwrap() = byte_val(&last);
                    let enc = spec::encode_blocks(v, level, &data);
                    let cells = spec::place(v, level, mm as u64, &enc.stream, &Bit::Z);
                    let c = Case {
                        entry: "__v::h_decode_to",
                        args: vec![Val::C(n as u64)],
                        n,
                        cells: transpose(n, &cells),
                        expect: vec![(Val::C(1), Exp::Ok { meta: Some([v as u64, level as u64, mm as u64]), bytes: want })],
                        name: format!("version {v} level {level} mask {mm} transposed, format readable both ways"),
                        ..Default::default()
                    };
                    b.case(&c, rep);
                }
            }
        }
        if v <= 2 {
            both_readable(&b, v, rep);
        }
        stats(&b, rep);
    }
}

/// grids that are error-free symbols both plain and transposed
fn both_readable<'tcx>(b: &Bench<'tcx>, v: usize, rep: &mut Report) {
    let n = spec::size(v);
    let z = spec::zigzag(v);
    let gf = Gf::new();
    let mut done = 0;
    for d1 in 0..32u32 {
        let w = spec::format_word(d1);
        let Some(d2) = spec::format_decode(spec::reverse15(w)) else { continue };
        let (l1, m1, l2, m2) = ((d1 >> 3) as usize, (d1 & 7) as u64, (d2 >> 3) as usize, (d2 & 7) as u64);
        let (t1, nb1, ec1, _, _) = spec::block_info(v, l1);
        let (_, nb2, ec2, _, _) = spec::block_info(v, l2);
        if nb1 != 1 || nb2 != 1 || (ec1 + ec2) * 8 + 80 > z.len() {
            continue;
        }
        for kind in 0..2 {
            b.fresh();
            let base = b.e.dom.fresh_aligned((n * n) as u32);
            let cell = |y: usize, x: usize| Lin::atom(base + (y * n + x) as u32);
            let mut sys = crate::guard::LinSys::default();
            let mut ok = true;
            // stream bit i of a reading as (form, constant)
            let bit = |i: usize, tr: bool| {
                let (y, x) = z[i];
                let m = if tr { m2 } else { m1 };
                (if tr { cell(x, y) } else { cell(y, x) }, spec::mask(m, y, x))
            };
            for (tr, ec) in [(false, ec1), (true, ec2)] {
                for j in 0..ec {
                    // parity check j, 8 equations
                    let mut row: Vec<(Lin, bool)> = vec![(Lin::default(), false); 8];
                    for p in 0..t1 {
                        let f = gf.pow2(j * (t1 - 1 - p));
                        for k in 0..8 {
                            let pr = gf.mul(f, 0x80 >> k);
                            let (l, c) = bit(p * 8 + k, tr);
                            for o in 0..8 {
                                if pr >> o & 1 == 1 {
                                    row[o].0 = row[o].0.xor(&l);
                                    row[o].1 ^= c;
                                }
                            }
                        }
                    }
                    for (l, c) in row {
                        ok &= sys.add(&l, c);
                    }
                }
                // header
                let hdr: Vec<u64> = if tr { vec![4, 2, 0x6d, 0x69] } else if kind == 0 { vec![4, 2, 0x50, 0x6c] } else { vec![3] };
                let mut s = super::payload::Stream::default();
                s.put(hdr[0], 4);
                if hdr.len() > 1 {
                    s.put(hdr[1], 8).put(hdr[2], 8).put(hdr[3], 8).put(0, 4);
                }
                for (i, h) in s.bits.iter().enumerate() {
                    let (l, c) = bit(i, tr);
                    ok &= sys.add(&l, c ^ (*h == Bit::O));
                }
            }
            if !ok {
                continue;
            }
            let mut cells: Vec<Bit> = (0..n * n).map(|_| Bit::Z).collect();
            spec::function_patterns(v, &mut cells);
            for &(y, x) in &z {
                let (l, c) = sys.reduce(&cell(y, x), false);
                cells[y * n + x] = Bit::form(l, c);
            }
            let ddw = spec::dead_word(5);
            spec::set_format(v, &mut cells, &|i| Bit::k(w >> i & 1 == 1), &|i| Bit::k(ddw >> i & 1 == 1));
            let e = if kind == 0 { Exp::Ok { meta: Some([v as u64, l1 as u64, m1]), bytes: vec![Val::C(0x50), Val::C(0x6c)] } } else { Exp::Err(vec![4]) };
            let c = Case {
                entry: "__v::h_decode_to",
                args: vec![Val::C(n as u64)],
                n,
                cells,
                expect: vec![(Val::C(1), e)],
                name: format!("version {v}, error free plain (format {d1:05b}) and transposed (format {d2:05b}), plain payload {}", if kind == 0 { "valid" } else { "of an unknown type" }),
                ..Default::default()
            };
            b.case(&c, rep);
            done += 1;
        }
        if done >= 6 {
            break;
        }
    }
    rep.count("grids_readable_both_ways", done);
}
