use super::*;
use crate::spec;

/// byte-mode payload filling the symbol, `k` selects one character more than fits
pub fn full_payload(e: &Engine<'_>, v: usize, level: usize) -> (Vec<[Bit; 8]>, Vec<Val>, Bit) {
    let dc = spec::data_codewords(v, level);
    let nb = if v <= 9 { 8 } else { 16 };
    let cap = (dc * 8 - 4 - nb) / 8;
    let k = Bit::atom(e.dom.fresh_aligned(1));
    let mut bits: Vec<Bit> = vec![Bit::Z, Bit::O, Bit::Z, Bit::Z];
    let d = cap ^ (cap + 1);
    for i in (0..nb).rev() {
        let b = Bit::k(cap >> i & 1 == 1);
        bits.push(if d >> i & 1 == 1 { b.xor(&k) } else { b });
    }
    let hdr = bits.len();
    // atoms aligned per block so that forms stay compact
    let (_, nbk, _, sl, short) = spec::block_info(v, level);
    let mut pos = 0;
    let mut atoms: Vec<u32> = vec![];
    for b in 0..nbk {
        let dw = if b < short { sl } else { sl + 1 };
        let a = e.dom.fresh_aligned(dw as u32 * 8);
        for i in 0..dw as u32 * 8 {
            atoms.push(a + i);
        }
        pos += dw;
    }
    assert_eq!(pos, dc);
    while bits.len() < hdr + cap * 8 {
        bits.push(Bit::atom(atoms[bits.len()]));
    }
    let mut out = vec![];
    for i in 0..cap {
        out.push(byte_val(&bits[hdr + 8 * i..hdr + 8 * i + 8]));
    }
    while bits.len() < dc * 8 {
        bits.push(Bit::Z);
    }
    let data = (0..dc).map(|i| std::array::from_fn(|j| bits[i * 8 + j].clone())).collect();
    (data, out, k)
}

fn grid_base(e: &Engine<'_>, n: usize) -> u32 {
    e.dom.fresh_aligned((n * n) as u32)
}

pub fn stats<'tcx>(b: &Bench<'tcx>, rep: &mut Report) {
    let s = b.e.stats.borrow();
    rep.count("abstract_steps", s.steps);
    rep.count("joins", s.merges);
    rep.count("splits", s.forks);
    rep.counters.insert("functions_analysed_max".into(), s.funcs.len() as u64);
    rep.counters.insert("crate_blocks_visited_max".into(), s.sites.len() as u64);
}

/// compare raw data with the data modules (optionally unmasked)
fn raw_case<'tcx>(b: &Bench<'tcx>, entry: &'static str, v: usize, fmt: u32, unmask: bool, rep: &mut Report) {
    b.fresh();
    let n = spec::size(v);
    let base = grid_base(&b.e, n);
    let m = (fmt & 7) as u64;
    let mut cells: Vec<Bit> = (0..n * n).map(|i| Bit::atom(base + i as u32)).collect();
    let fw = spec::format_word(fmt);
    for i in 0..15 {
        for (y, x) in [spec::format_pos1(i), spec::format_pos2(v, i)] {
            cells[y * n + x] = Bit::k(fw >> i & 1 == 1);
        }
    }
    let z = spec::zigzag(v);
    let mut bytes = vec![Val::C(0); 8896];
    for (i, c) in z.chunks(8).enumerate() {
        let mut b: Vec<Bit> = c
            .iter()
            .map(|&(y, x)| {
                let bit = cells[y * n + x].clone();
                if unmask && spec::mask(m, y, x) { bit.not() } else { bit }
            })
            .collect();
        b.resize(8, Bit::Z);
        bytes[i] = byte_val(&b);
    }
    rep.count("bits_related_to_modules", z.len() as u64);
    let k = |x: u64| vec![Val::C(x)];
    let c = Case {
        entry,
        args: vec![Val::C(n as u64)],
        n,
        cells,
        expect: vec![(
            Val::C(1),
            Exp::Out(vec![(10, k(v as u64)), (11, k((fmt >> 3) as u64)), (12, k(m)), (13, k(z.len() as u64)), (14, bytes)]),
        )],
        name: format!("version {v}, format {fmt:05b}, all other modules unknown"),
        ..Default::default()
    };
    b.case(&c, rep);
}

pub fn c01<'tcx>(tcx: TyCtxt<'tcx>, job: &Job, rep: &mut Report) {
    for v in (1..=40).filter(|v| job.mine(*v)) {
        let b = Bench::new(tcx, job);
        // every mask, so that reading that depends on the announced mask is noticed
        raw_case(&b, "__v::h_raw", v, (v as u32 * 11) % 32, false, rep);
        raw_case(&b, "__v::h_raw", v, (v as u32 * 11 + 21) % 32, false, rep);
        stats(&b, rep);
    }
}

pub fn c02<'tcx>(tcx: TyCtxt<'tcx>, job: &Job, rep: &mut Report) {
    for v in (1..=40).filter(|v| job.mine(*v)) {
        let b = Bench::new(tcx, job);
        for m in 0..8u32 {
            let l = (v as u32 + m) % 4;
            if job.public {
                symbol_case(&b, v, l as usize, m as u64, "__v::h_decode_to", rep);
            } else {
                raw_case(&b, "__vp::h_unmasked", v, l << 3 | m, true, rep);
            }
            raw_case(&b, "__v::h_raw", v, l << 3 | m, false, rep);
        }
        stats(&b, rep);
    }
}

fn symbol_case<'tcx>(b: &Bench<'tcx>, v: usize, level: usize, m: u64, entry: &'static str, rep: &mut Report) {
    b.fresh();
    let (data, want, k) = full_payload(&b.e, v, level);
    let enc = spec::encode_blocks(v, level, &data);
    let n = spec::size(v);
    let cells = spec::place(v, level, m, &enc.stream, &Bit::Z);
    let k1 = boolv(k.clone());
    let c = Case {
        entry,
        args: vec![Val::C(n as u64)],
        n,
        cells,
        expect: vec![
            (boolv(k.not()), Exp::Ok { meta: Some([v as u64, level as u64, m]), bytes: want }),
            (k1, Exp::ErrAny(vec![2])),
        ],
        name: format!("version {v} level {level} mask {m}, symbol filled with unknown data"),
        ..Default::default()
    };
    b.case(&c, rep);
}

pub fn c03<'tcx>(tcx: TyCtxt<'tcx>, job: &Job, rep: &mut Report) {
    for v in (1..=40).filter(|v| job.mine(*v)) {
        let mut b = Bench::new(tcx, job);
        b.e.cfg.max_states = 4;
        for level in 0..4 {
            symbol_case(&b, v, level, (v + level * 3) as u64 % 8, "__v::h_decode_to", rep);
        }
        stats(&b, rep);
    }
}
