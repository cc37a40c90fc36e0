//! Grid sizes, versions, SimpleGrid.
use super::*;
use super::decode::stats;
use crate::spec;

pub fn c16<'tcx>(tcx: TyCtxt<'tcx>, job: &Job, rep: &mut Report) {
    // every size up to beyond version 40, and huge ones
    let mut sizes: Vec<u64> = (0..=190).collect();
    sizes.extend([191, 255, 256, 257, 272, 273, 274, 277, 300, 512, 1000, 1024, 1041, 65535, 65536, 65557, 1 << 31, 1 << 32, (1 << 32) + 21, u64::MAX - 17, u64::MAX - 3, u64::MAX]);
    for (i, n) in sizes.iter().copied().enumerate() {
        if !job.mine(i % 40 + 1) {
            continue;
        }
        let b = Bench::new(tcx, job);
        let table = n.min(200) as usize;
        for kind in 0..2 {
            b.fresh();
            // modules: format readable, everything else unknown; in the second case only the transposed format is readable
            let mut cells: Vec<Bit> = vec![Bit::Z; table * table];
            if n >= 21 && n <= 200 {
                let base = b.e.dom.fresh_aligned((table * table) as u32);
                if kind == 0 {
                    for (i, c) in cells.iter_mut().enumerate() {
                        *c = Bit::atom(base + i as u32);
                    }
                }
                let w = spec::oneway_word((n as u32 * 3) % 32);
                let d = spec::dead_word(n as u32);
                for i in 0..15 {
                    let (y, x) = spec::format_pos1(i);
                    cells[y * table + x] = Bit::k(w >> i & 1 == 1);
                    let (y, x) = if i < 8 { (8, table - 1 - i) } else { (table - 15 + i, 8) };
                    cells[y * table + x] = Bit::k(d >> i & 1 == 1);
                }
                if kind == 1 {
                    cells = super::ecc::transpose(table, &cells);
                }
            }
            let rejected = n < 21 || n > 180;
            let c = Case {
                entry: if kind == 0 { "__v::h_raw" } else { "__v::h_decode_to" },
                args: vec![Val::C(n)],
                n: table,
                cells,
                expect: vec![(Val::C(1), if rejected { Exp::Err(vec![7, 8]) } else if kind == 0 { Exp::NoPanic } else { Exp::NoPanic })],
                name: format!("grid size {n}, {}", if kind == 0 { "raw reading" } else { "decoding, plain and transposed" }),
                ..Default::default()
            };
            b.case(&c, rep);
        }
        stats(&b, rep);
    }
}

pub fn c17<'tcx>(tcx: TyCtxt<'tcx>, job: &Job, rep: &mut Report) {
    let top = if job.thorough() { 200 } else { 180 };
    // sizes above any symbol's, past the ranges of narrower numbers
    let more: &[usize] = if job.thorough() { &[255, 256, 257, 300, 363, 724, 1025] } else { &[257, 363] };
    for n in (0..=top).chain(more.iter().copied()) {
        if !job.mine(n % 40 + 1) {
            continue;
        }
        // the larger sizes are sampled in the quick tier: every residue modulo 8 and all QR sizes
        if !job.thorough() && n > 64 && n <= top && n % 4 != 1 && n % 23 > 1 {
            continue;
        }
        let b = Bench::new(tcx, job);
        let base = b.e.dom.fresh_aligned((n * n).max(1) as u32);
        let cells: Vec<Bit> = (0..n * n).map(|i| Bit::atom(base + i as u32)).collect();
        let want: Vec<Val> = cells.iter().map(|c| mk_bits(vec![c.clone()])).collect();
        let c = Case {
            entry: "__v::h_simple",
            args: vec![Val::C(n as u64)],
            n: n.max(1),
            cells,
            expect: vec![(Val::C(1), Exp::Out(vec![(20, vec![Val::C(n as u64)]), (21, want)]))],
            name: format!("grid of size {n} built from an unknown function"),
            ..Default::default()
        };
        b.case(&c, rep);
        stats(&b, rep);
    }
}

pub fn c18<'tcx>(tcx: TyCtxt<'tcx>, job: &Job, rep: &mut Report) {
    let b = Bench::new(tcx, job);
    for n in 0..=300u64 {
        let v = (n as i64 - 17) / 4;
        let e = if n < 21 || n > 180 {
            Exp::Err(vec![7])
        } else if (n - 17) % 4 == 0 {
            Exp::Out(vec![(22, vec![Val::C(v as u64)]), (23, vec![Val::C(n)])])
        } else {
            Exp::NoPanic
        };
        let c = Case { entry: "__v::h_version", args: vec![Val::C(n)], expect: vec![(Val::C(1), e)], name: format!("size {n}"), ..Default::default() };
        b.case(&c, rep);
    }
    // all larger sizes at once, as an interval
    let mut lo = 181u64;
    let mut wide = false;
    while lo != 0 {
        let hi = if lo < 1 << 62 { lo * 4 } else { u64::MAX };
        let c = Case {
            entry: "__v::h_version",
            args: vec![Val::R(lo, hi)],
            expect: vec![(Val::C(1), Exp::Err(vec![7]))],
            name: format!("sizes {lo} to {hi}"),
            ..Default::default()
        };
        let before = rep.undecided.len();
        b.case(&c, rep);
        wide |= rep.undecided.len() > before;
        lo = hi.wrapping_add(1);
    }
    if wide {
        // not settled for the intervals: sizes at which a narrower number starts over
        let mut list: Vec<u64> = (301..5000).collect();
        for k in 7..64 {
            for v in 0..200u64 {
                list.extend([(1u64 << k).wrapping_add(v), (4u64 << k).wrapping_add(17 + v)]);
            }
        }
        list.sort_unstable();
        list.dedup();
        for n in list.into_iter().filter(|n| *n > 300) {
            let c = Case { entry: "__v::h_version", args: vec![Val::C(n)], expect: vec![(Val::C(1), Exp::Err(vec![7]))], name: format!("size {n}"), ..Default::default() };
            b.case(&c, rep);
            if !rep.violations.is_empty() {
                break;
            }
        }
    }
    for v in 1..=40u64 {
        let c = Case {
            entry: "__v::h_to_size",
            args: vec![Val::C(v)],
            expect: vec![(Val::C(1), Exp::Out(vec![(23, vec![Val::C(4 * v + 17)])]))],
            name: format!("version {v}"),
            ..Default::default()
        };
        b.case(&c, rep);
    }
    stats(&b, rep);
}
