//! Decoding of arbitrary data: value sets instead of exact forms where those do not exist.
use super::decode::stats;
use super::*;
use crate::spec;

type Input<'tcx> = Box<dyn FnMut(&Engine<'tcx>, &mut State<'tcx>, u64, Val, Val) -> Result<Val, String>>;

fn bytes_in<'tcx>(v: Vec<Val>) -> Input<'tcx> {
    Box::new(move |_, _, tag, a, _| match (tag, a) {
        (98, Val::C(i)) => Ok(v[i as usize].clone()),
        (t, _) => Err(format!("unexpected input {t}")),
    })
}

/// (block length, data length) of every kind of block there is
pub fn block_kinds() -> Vec<(usize, usize)> {
    let mut s = std::collections::BTreeSet::new();
    for v in 1..=40 {
        for level in 0..4 {
            let (_, nb, ec, sl, short) = spec::block_info(v, level);
            s.insert((sl + ec, sl));
            if short < nb {
                s.insert((sl + 1 + ec, sl + 1));
            }
        }
    }
    s.into_iter().collect()
}

/// shortest and longest block for every number of parity codewords
pub fn extreme_kinds() -> Vec<(usize, usize)> {
    let mut m: std::collections::BTreeMap<usize, Vec<(usize, usize)>> = Default::default();
    for k in block_kinds() {
        m.entry(k.0 - k.1).or_default().push(k);
    }
    let mut out = vec![];
    for v in m.values() {
        out.push(v[0]);
        if v.len() > 1 {
            out.push(*v.last().unwrap());
        }
    }
    out
}

/// the bits of all parity checks of a block, in terms of its bits
fn checks(bytes: &[Vec<Bit>], ec: usize) -> Vec<Bit> {
    let gf = spec::Gf::new();
    let n = bytes.len();
    let mut out = vec![];
    for i in 0..ec {
        let mut acc: Vec<Vec<Bit>> = vec![vec![]; 8];
        for (p, b) in bytes.iter().enumerate() {
            let c = gf.exp[i * (n - 1 - p) % 255];
            for (j, bit) in b.iter().enumerate() {
                let prod = gf.mul(c, 1 << j);
                for (k, a) in acc.iter_mut().enumerate() {
                    if prod >> k & 1 == 1 {
                        a.push(bit.clone());
                    }
                }
            }
        }
        for a in acc {
            out.push(spec::xor_all(&a.iter().collect::<Vec<_>>()));
        }
    }
    out
}

fn byte_bits(v: &Val) -> Option<Vec<Bit>> {
    match v {
        Val::C(c) => Some((0..8).map(|j| Bit::k(c >> j & 1 == 1)).collect()),
        Val::B(b) => {
            let mut r: Vec<Bit> = b.iter().cloned().collect();
            if r.len() > 8 {
                return None;
            }
            r.resize(8, Bit::Z);
            Some(r)
        }
        _ => None,
    }
}

/// members of the set of all blocks: damaged codewords and arbitrary bytes
fn sample_blocks(bs: usize, dw: usize, count: usize) -> Vec<Vec<u64>> {
    let gf = spec::Gf::new();
    let pm = spec::parity_matrix(&gf, dw, bs - dw);
    let mut r = Rng(0x51ed2701 + (bs * 256 + dw) as u64);
    (0..count)
        .map(|k| {
            let mut b: Vec<u8> = (0..bs).map(|_| r.next() as u8).collect();
            if k % 8 != 7 {
                for j in 0..bs - dw {
                    b[dw + j] = (0..dw).fold(0, |a, i| a ^ gf.mul(b[i], pm[i][j]));
                }
                let w = match k % 8 {
                    0 => 1,
                    1 => 2,
                    2 => (bs - dw) / 2,
                    _ => (bs - dw) / 2 + 1 + r.next() as usize % 4,
                };
                for _ in 0..w {
                    b[r.next() as usize % bs] ^= (r.next() as u8).max(1);
                }
            }
            b.into_iter().map(|x| x as u64).collect()
        })
        .collect()
}

/// any block of this kind: no panic; if it is accepted, what is left in it passes every parity check
pub fn block_case<'tcx>(b: &mut Bench<'tcx>, bs: usize, dw: usize, want_codeword: bool, rep: &mut Report) {
    let args = || vec![Val::C(bs as u64), Val::C(dw as u64)];
    let name = format!("any block of {bs} codewords, {dw} of them data");
    if std::env::var("QRAI_NAMES").is_ok() {
        eprintln!("{name}");
    }
    let cfg = b.e.cfg.clone();
    b.fresh();
    b.e.cfg.lossy = true;
    b.e.cfg.flags = want_codeword;
    b.e.cfg.keep_rank = if want_codeword { 8 * (bs - dw) } else { 0 };
    b.e.dom.fresh_bytes = true;
    b.e.dom.max_dims = 8;
    let base = b.e.dom.fresh_aligned(8 * bs as u32);
    let v = (0..bs).map(|i| mk_bits((0..8).map(|j| Bit::atom(base + 8 * i as u32 + j)).collect())).collect();
    let judge = |outs: Vec<(State<'tcx>, Outcome)>, rep: &mut Report| -> Option<String> {
        rep.count("partitions", outs.len() as u64);
        let mut accepted = false;
        for (st, o) in &outs {
            match o {
                Outcome::Return(Val::C(0)) => {}
                Outcome::Return(v) if !want_codeword => {
                    let _ = v;
                    accepted = true;
                }
                Outcome::Return(Val::C(1)) => {
                    accepted = true;
                    let left = st.outs(98).pop().unwrap_or_default();
                    let Some(bits) = left.iter().map(byte_bits).collect::<Option<Vec<_>>>() else {
                        return Some("accepted block not expressible".into());
                    };
                    if bits.len() != bs {
                        return Some("accepted block of unexpected length".into());
                    }
                    for (i, c) in checks(&bits, bs - dw).iter().enumerate() {
                        if crate::guard::reduce_bit(&st.guard, c).konst() != Some(false) {
                            return Some(format!("accepted although parity check {} need not hold", i / 8));
                        }
                    }
                }
                o => return Some(format!("{o:?}").chars().take(300).collect()),
            }
        }
        if outs.is_empty() || !accepted {
            return Some("no accepting outcome".into());
        }
        None
    };
    let und = match b.run("__vn::h_block", args(), bytes_in(v)) {
        Err(e) => Some(e),
        Ok(outs) => judge(outs, rep),
    };
    b.e.cfg = cfg;
    b.e.dom.fresh_bytes = false;
    b.e.dom.max_dims = 16;
    let Some(und) = und else { return rep.ok() };
    // is there a member to blame?
    for m in sample_blocks(bs, dw, 400) {
        b.fresh();
        rep.count("narrowed_runs", 1);
        let show = || format!("block {}", m.iter().map(|x| format!("{x:02x}")).collect::<String>());
        let Ok(outs) = b.run("__vn::h_block", args(), bytes_in(m.iter().map(|&x| Val::C(x)).collect())) else { continue };
        for (st, o) in &outs {
            match o {
                Outcome::Panic { msg, at, func } => {
                    return rep.violation_with(&format!("{at} ({func})"), &format!("{name}: panics: {msg}"), &show());
                }
                Outcome::Return(Val::C(1)) if want_codeword => {
                    let left = st.outs(98).pop().unwrap_or_default();
                    let Some(bits) = left.iter().map(byte_bits).collect::<Option<Vec<_>>>() else { continue };
                    if bits.len() == bs && checks(&bits, bs - dw).iter().any(|c| c.konst() == Some(true)) {
                        return rep.violation_with("decode::correct_block", &format!("{name}: accepted although it is not a codeword afterwards"), &show());
                    }
                }
                _ => {}
            }
        }
    }
    rep.undecided(&format!("{name}: {und}"));
}

/// what becomes of the blocks, whatever the verdict on each: all are asked about, and all must be good.
/// The verdicts come from a stand-in; a block that seems to be ignored is returned, to be tried for real.
pub fn split_case<'tcx>(b: &mut Bench<'tcx>, v: usize, level: usize, full: bool, rep: &mut Report) -> Option<usize> {
    let name = format!("version {v} level {level}: blocks of unknown codewords, each accepted or not");
    let cfg = b.e.cfg.clone();
    b.fresh();
    b.e.cfg.max_time = std::time::Duration::from_secs(20);
    b.e.cfg.max_states = 1000;
    b.e.cfg.redirect = vec![("decode::correct_block".into(), "decode::__vn2::stub".into())];
    let (total, nb, ec, sl, short) = spec::block_info(v, level);
    let base = b.e.dom.fresh_aligned(8 * total as u32);
    let val = |i: usize| mk_bits((0..8).map(|j| Bit::atom(base + 8 * i as u32 + j)).collect());
    // the blocks as the standard interleaves them
    let mut blocks: Vec<Vec<Val>> = vec![vec![]; nb];
    let mut k = 0;
    for r in 0..=sl {
        for (i, blk) in blocks.iter_mut().enumerate() {
            if r < sl || i >= short {
                blk.push(val(k));
                k += 1;
            }
        }
    }
    let data: Vec<Val> = blocks.iter().flat_map(|b| b.iter().cloned()).collect();
    for _ in 0..ec {
        for blk in blocks.iter_mut() {
            blk.push(val(k));
            k += 1;
        }
    }
    assert_eq!(k, total);
    let inp = (0..total).map(val).collect::<Vec<_>>();
    let ans = b.e.dom.fresh_aligned(nb as u32 + 8);
    let outs = b.run(
        "__vn::h_split",
        vec![Val::C(v as u64), Val::C(level as u64), Val::C(total as u64)],
        Box::new(move |_, st, tag, a, _| match (tag, a) {
            (98, Val::C(i)) => Ok(inp[i as usize].clone()),
            (97, _) => {
                let k = st.outs(100).len() as u32;
                st.push_ev(Ev::Out(100, vec![]));
                Ok(mk_bits(vec![Bit::atom(ans + k)]))
            }
            (t, _) => Err(format!("unexpected input {t}")),
        }),
    );
    b.e.cfg = cfg;
    let outs = match outs {
        Err(e) => {
            rep.undecided(&format!("{name}: {e}"));
            return None;
        }
        Ok(o) => o,
    };
    rep.count("partitions", outs.len() as u64);
    let mut ok = false;
    let mut und: Option<(String, Option<usize>)> = None;
    for (st, o) in &outs {
        match o {
            Outcome::Panic { msg, at, func } => {
                rep.violation(&format!("{at} ({func})"), &format!("{name}: panics: {msg}"));
                return None;
            }
            Outcome::Return(Val::C(r)) => {
                ok |= *r == 1;
                if !full {
                    continue;
                }
                // verdicts given on this path
                let good: Vec<Option<bool>> = (0..nb as u32).map(|i| crate::guard::decide(&b.e.dom, &st.guard, &mk_bits(vec![Bit::atom(ans + i)]))).collect();
                let asked = st.outs(95);
                if *r == 0 {
                    if !good.iter().any(|g| *g == Some(false)) {
                        und = Some(("refused although no block was found bad".into(), None));
                    }
                    continue;
                }
                if let Some(i) = good.iter().position(|g| *g != Some(true)) {
                    und = Some((format!("accepted although block {i} was not found good ({} of {nb} blocks checked)", asked.len()), Some(i)));
                    continue;
                }
                let dims = st.outs(96);
                for (i, blk) in blocks.iter().enumerate() {
                    let d = |j: usize| dims.get(2 * i + j).and_then(|d| d.first());
                    if asked.get(i) != Some(blk) || d(0) != Some(&Val::C(blk.len() as u64)) || d(1) != Some(&Val::C((blk.len() - ec) as u64)) {
                        und = Some((format!("the codewords checked as block {i} are not those of block {i}"), Some(i)));
                        break;
                    }
                }
                if st.outs(94).pop() != Some(vec![Val::C(8 * data.len() as u64)]) || st.outs(93).pop().as_ref() != Some(&data) {
                    und = und.or(Some(("the data handed on is not the data of the blocks in order".into(), None)));
                }
            }
            o => und = Some((format!("{o:?}").chars().take(200).collect::<String>(), None)),
        }
    }
    if !ok && und.is_none() {
        und = Some(("never accepted".into(), None));
    }
    match und {
        None => rep.ok(),
        Some((u, None)) => rep.undecided(&format!("{name}: {u}")),
        Some((u, i)) => {
            rep.notes.push(format!("{name}: {u}"));
            return i;
        }
    }
    None
}

/// any bytes at all as the corrected data
fn stream_case<'tcx>(b: &mut Bench<'tcx>, n: usize, v: usize, rep: &mut Report) {
    let name = format!("any {n} bytes of corrected data in version {v}");
    if std::env::var("QRAI_NAMES").is_ok() {
        eprintln!("{name}");
    }
    let args = || vec![Val::C(n as u64), Val::C(v as u64)];
    let cfg = b.e.cfg.clone();
    b.fresh();
    b.e.cfg.lossy = true;
    b.e.cfg.exact_first = true;
    b.e.cfg.no_events = true;
    b.e.dom.fresh_bytes = true;
    let base = b.e.dom.fresh_aligned(8 * n as u32);
    let inp = (0..n).map(|i| mk_bits((0..8).map(|j| Bit::atom(base + 8 * i as u32 + j)).collect())).collect();
    let und = match b.run("__vn::h_payload", args(), bytes_in(inp)) {
        Err(e) => Some(e),
        Ok(outs) => {
            rep.count("partitions", outs.len() as u64);
            if outs.is_empty() {
                Some("no outcome".into())
            } else {
                outs.iter().find(|o| !matches!(o.1, Outcome::Return(_))).map(|o| format!("{:?}", o.1).chars().take(300).collect::<String>())
            }
        }
    };
    b.e.cfg = cfg;
    b.e.dom.fresh_bytes = false;
    let Some(und) = und else { return rep.ok() };
    let mut r = Rng(0x77 + n as u64 * 64 + v as u64);
    for k in 0..3000 {
        b.fresh();
        let mut m: Vec<u64> = (0..n).map(|_| r.next() & 255).collect();
        m[0] = [1, 2, 4, 8, 7][k % 5] << 4 | (r.next() & 15 & [0, 0, 15][k % 3]);
        if k % 4 < 2 && n > 1 {
            m[1] &= 0xe0;
        }
        rep.count("narrowed_runs", 1);
        let Ok(outs) = b.run("__vn::h_payload", args(), bytes_in(m.iter().map(|&x| Val::C(x)).collect())) else { continue };
        for (_, o) in &outs {
            if let Outcome::Panic { msg, at, func } = o {
                let w = format!("data {}", m.iter().map(|x| format!("{x:02x}")).collect::<String>());
                return rep.violation_with(&format!("{at} ({func})"), &format!("{name}: panics: {msg}"), &w);
            }
        }
    }
    rep.undecided(&format!("{name}: {und}"));
}

/// raw reading of a grid of unknown modules, in each mask
fn raw_case<'tcx>(b: &mut Bench<'tcx>, n: usize, rep: &mut Report) {
    for k in [n as u32 / 4 % 2] {
        b.fresh();
        let base = b.e.dom.fresh_aligned((n * n) as u32);
        let mut cells: Vec<Bit> = (0..n * n).map(|i| Bit::atom(base + i as u32)).collect();
        // readable format information in one of the copies, beyond repair in the other
        let (w, d) = (spec::format_word((n as u32 / 4 * 5 + k * 12) % 32), spec::dead_word(n as u32));
        for i in 0..15 {
            let (y, x) = spec::format_pos1(i);
            cells[y * n + x] = Bit::k(if k == 0 { w } else { d } >> i & 1 == 1);
            let (y, x) = if i < 8 { (8, n - 1 - i) } else { (n - 15 + i, 8) };
            cells[y * n + x] = Bit::k(if k == 0 { d } else { w } >> i & 1 == 1);
        }
        let c = Case {
            entry: "__v::h_raw",
            args: vec![Val::C(n as u64)],
            n,
            cells,
            expect: vec![(Val::C(1), Exp::NoPanic)],
            name: format!("raw reading of a grid of {n} by {n} (format copy {}), every other module unknown", k + 1),
            ..Default::default()
        };
        b.case(&c, rep);
    }
}

pub fn c15<'tcx>(tcx: TyCtxt<'tcx>, job: &Job, rep: &mut Report) {
    let mut b = Bench::new(tcx, job);
    for n in (0..=190usize).filter(|n| job.mine(n / 4 % 8 + 1)) {
        if n < 21 || n > 180 {
            let c = Case {
                entry: "__v::h_decode_to",
                args: vec![Val::C(n as u64)],
                n,
                cells: vec![Bit::Z; n * n],
                expect: vec![(Val::C(1), Exp::Err(vec![7, 8]))],
                name: format!("decoding a grid of {n} by {n}"),
                ..Default::default()
            };
            b.case(&c, rep);
        } else if n % 4 == 1 || n % 16 == 3 || job.thorough() {
            raw_case(&mut b, n, rep);
        }
    }
    for v in 1..=40 {
        if job.mine(v % 8 + 1) {
            for level in 0..4 {
                split_case(&mut b, v, level, false, rep);
            }
        }
    }
    let kinds = if job.thorough() { block_kinds() } else { extreme_kinds() };
    for (i, (bs, dw)) in kinds.into_iter().enumerate() {
        if job.mine(20 + i) {
            block_case(&mut b, bs, dw, false, rep);
        }
    }
    let mut lens: Vec<(usize, usize)> = vec![];
    for v in [1, 10, 40, 9, 26, 27] {
        lens.push((if [1, 10, 40].contains(&v) { 14 } else { 13 }, v));
    }
    for v in [1, 9, 10, 26, 27, 40] {
        lens.extend((1..=12).filter(|n| n % 5 == v % 5 || job.thorough()).map(|n| (n, v)));
    }
    if job.thorough() {
        lens.extend([1, 9, 10, 26, 27, 40].map(|v| (19, v)));
    }
    for (i, (n, v)) in lens.into_iter().enumerate() {
        if job.mine(10 + i % 8) {
            stream_case(&mut b, n, v, rep);
        }
    }
    stats(&b, rep);
}
