//! Detection steps that may fail, and images without anything to find.
use super::decode::stats;
use super::*;

type Inp<'tcx> = Box<dyn FnMut(&Engine<'tcx>, &mut State<'tcx>, u64, Val, Val) -> Result<Val, String> + 'tcx>;

/// local function with this path suffix
fn has(tcx: TyCtxt, suffix: &str) -> bool {
    tcx.hir_body_owners().any(|d| {
        let p = tcx.def_path_str(d.to_def_id());
        p.ends_with(suffix) && !p.starts_with("__v") && !p.contains("::__v")
    })
}

pub fn c35<'tcx>(tcx: TyCtxt<'tcx>, job: &Job, rep: &mut Report) {
    let mut b = Bench::new(tcx, job);
    b.e.cfg.no_join = true;
    let steps = ["::timing_scan", "::find_alignment_pattern", "::jiggle_perspective", "Perspective::create", "::line_intersect"];
    let stub = |f: &str| (f.to_string(), format!("__vg::{}", f.rsplit("::").next().unwrap()));
    let at = "identify::grid::SkewedGridLocation::from_group";
    let whole = steps.iter().all(|f| has(tcx, f));
    if !whole {
        rep.undecided("the steps of the test of a group are not the known ones");
    }
    b.e.cfg.redirect = steps.iter().map(|f| stub(f)).collect();
    let mut i = 0;
    for place in 0..4u64 {
        for turn in [0u64, 1, 2, 3, 27, 44] {
            for count in [1u64, 2, 7, 8, 9, 12, 40, 160, 164, 165, 166, 167, 168, 169, 400, 100_000] {
                i += 1;
                if !whole || !job.mine(i % 8 + 1) {
                    continue;
                }
                let name = format!("finder patterns placed as {place}, turned by {turn}, {count} colour changes on a timing line");
                b.fresh();
                let inp = || -> Inp<'tcx> { Box::new(move |e, st, tag, _, _| {
                    let k = st.outs(101).len() as u64;
                    st.push_ev(Ev::Out(101, vec![]));
                    let flag = |n: usize| Val::C(n as u64);
                    let _ = flag;
                    match tag {
                        60 | 63 => Ok(mk_bits(vec![Bit::atom(e.dom.named(2, vec![k]))])),
                        61 => Ok(mk_bits((0..3).map(|j| Bit::atom(e.dom.named(2, vec![k, j]))).collect())),
                        62 => Ok(Val::C(if k % 2 == 0 { count } else { 1 })),
                        t => Err(format!("unexpected input {t}")),
                    }
                }) };
                outcomes(&b, rep, "__vg::h_group", vec![Val::C(turn), Val::C(place)], &inp, &name, at, 2);
            }
        }
    }
    // the search for the alignment pattern, from seeds and towards corners anywhere
    b.e.cfg.redirect = vec![("Perspective::map".into(), "__vg::far_map".into())];
    b.e.cfg.no_join = false;
    // the search visits at most some hundred thousand points of the small image's surroundings
    b.e.cfg.max_steps = 40_000_000;
    let mut given_up = 0;
    let far = has(tcx, "Perspective::map") && has(tcx, "::find_alignment_pattern");
    if !far {
        rep.undecided("the search for an alignment pattern is not the known one");
    }
    let at = "identify::grid::find_alignment_pattern";
    let seeds: [(i64, i64); 6] = [(22, 22), (20, 25), (0, 0), (-3, 40), (1 << 20, -(1 << 20)), (i32::MAX as i64 - 1000, i32::MIN as i64 + 1000)];
    for (si, (x, y)) in seeds.into_iter().enumerate() {
        for black in [0u64, 1] {
            for t in 0..36u64 * 36 {
                // every pair near the first seed, a sample of the pairs for others
                if si > 1 && t % 7 != si as u64 {
                    continue;
                }
                i += 1;
                if !far || given_up > 2 || !job.mine(i % 8 + 1) {
                    continue;
                }
                let before = rep.undecided.len();
                let name = format!("alignment pattern search at ({x},{y}), corners {} and {}, {}", t / 36, t % 36, if black == 1 { "one black pixel" } else { "white image" });
                b.fresh();
                let inp = || -> Inp<'tcx> { Box::new(move |_, st, tag, _, _| {
                    let k = st.outs(101).len();
                    st.push_ev(Ev::Out(101, vec![]));
                    match tag {
                        64 => Ok(Val::C(if k == 0 { t / 36 } else { t % 36 })),
                        t => Err(format!("unexpected input {t}")),
                    }
                }) };
                outcomes(&b, rep, "identify::grid::__vga::h_align", vec![Val::C(x as u64), Val::C(y as u64), Val::C(black)], &inp, &name, at, 2);
                given_up += (rep.undecided.len() > before) as u32;
            }
        }
    }
    b.e.cfg.max_steps = 400_000_000;
    // mapping through any coefficients
    b.e.cfg.redirect = vec![];
    let at = "geometry::Perspective::map";
    for which in 0..768 * 12u64 {
        if which % 5 != 0 && !job.thorough() {
            continue;
        }
        i += 1;
        if !job.mine(i % 8 + 1) {
            continue;
        }
        let (u, v) = (which * 7 % 12, which * 5 / 3 % 12);
        b.fresh();
        let inp = || -> Inp<'tcx> { Box::new(|_, _, t, _, _| Err(format!("unexpected input {t}"))) };
        outcomes(&b, rep, "__vg::h_map", vec![Val::C(which), Val::C(u), Val::C(v)], &inp, &format!("perspective {which} at ({u},{v})"), at, 1);
    }
    stats(&b, rep);
}

/// every path returns, with a number below n; alarms are confirmed with all unknowns fixed
fn outcomes<'tcx>(b: &Bench<'tcx>, rep: &mut Report, entry: &str, args: Vec<Val>, inp: &(dyn Fn() -> Inp<'tcx> + '_), name: &str, at: &str, n: u64) {
    let wrong = |o: &Outcome| match o {
        Outcome::Return(Val::C(x)) if *x < n => None,
        Outcome::Return(Val::C(x)) => Some(Ok(format!("{x} is returned"))),
        Outcome::Panic { msg, at, .. } if !msg.starts_with('!') => Some(Ok(format!("panic at {at}: {msg}"))),
        o => Some(Err(format!("{o:?}"))),
    };
    let outs = match b.run(entry, args.clone(), inp()) {
        Err(e) => return rep.undecided(&format!("{name}: {e}")),
        Ok(o) => o,
    };
    rep.count("partitions", outs.len() as u64);
    let mut und = None;
    let mut rng = crate::witness::Rng(0x51ed);
    for (st, o) in &outs {
        let what = match wrong(o) {
            None => continue,
            Some(Err(t)) => {
                und = Some(t);
                continue;
            }
            Some(Ok(t)) => t,
        };
        und = Some(format!("{what} (not confirmed)"));
        for t in 0..8 {
            let Some(a) = crate::witness::sample(&st.guard, &mut rng, t == 0) else { continue };
            let mut f = inp();
            let fixed: Inp<'tcx> = Box::new(move |e, s, t, x, y| {
                let v = f(e, s, t, x, y)?;
                a.val(&v).map(Val::C).ok_or_else(|| "input not fixed".into())
            });
            rep.count("alarms_examined", 1);
            let Ok(again) = b.run(entry, args.clone(), fixed) else { continue };
            if let [(_, o)] = &again[..] {
                if let Some(Ok(t)) = wrong(o) {
                    return rep.violation_with(at, &format!("{name}: {t}"), &t);
                }
            }
        }
    }
    match und {
        Some(u) => rep.undecided(&format!("{name}: {u}")),
        None => rep.ok(),
    }
}

pub fn c36<'tcx>(tcx: TyCtxt<'tcx>, job: &Job, rep: &mut Report) {
    let mut b = Bench::new(tcx, job);
    b.e.cfg.no_join = true;
    let max = if job.thorough() { 13 } else { 11 };
    let mut sizes: Vec<(u64, u64)> = vec![];
    for w in 0..=20 {
        for h in 0..=20 {
            if w * h <= max {
                sizes.push((w, h));
            }
        }
    }
    sizes.sort_by_key(|(w, h)| w * h);
    let at = "prepare::PreparedImage::detect_grids";
    let (mut load, mut n) = ([0u64; 8], 0);
    for (w, h) in sizes.into_iter().rev() {
        // the heaviest first, each where there is least to do
        let to = (0..8).min_by_key(|i| load[*i]).unwrap();
        load[to] += 1 << (w * h);
        if !job.mine(to + 1) {
            continue;
        }
        b.fresh();
        let inp = || -> Inp<'tcx> { Box::new(|e, _, tag, y, x| match (tag, y, x) {
            (70, Val::C(y), Val::C(x)) => Ok(mk_bits(vec![Bit::atom(e.dom.named(1, vec![y, x]))])),
            (t, ..) => Err(format!("unexpected input {t}")),
        }) };
        outcomes(&b, rep, "__vy::h_tiny", vec![Val::C(w), Val::C(h)], &inp, &format!("every image of {w} by {h}"), at, 1);
    }
    // one finder pattern, with part of what is around it (or of itself) unknown
    for (w, h, ox, oy, scale) in [(9, 9, 1, 1, 1), (7, 7, 0, 0, 1), (11, 8, 2, 0, 1), (18, 17, 2, 1, 2)] {
        let cells: Vec<(u64, u64)> = (0..w * h).map(|i| (i % w, i / w)).collect();
        let (black, inner): (Vec<bool>, Vec<bool>) = cells
            .iter()
            .map(|(x, y)| {
                let (i, j) = ((*x as i64 - ox).div_euclid(scale), (*y as i64 - oy).div_euclid(scale));
                let e = (i - 3).abs().max((j - 3).abs());
                (e == 3 || e <= 1, e <= 3)
            })
            .unzip();
        let around: Vec<usize> = (0..cells.len()).filter(|i| !inner[*i]).collect();
        let all: Vec<usize> = (0..cells.len()).collect();
        let mut sets: Vec<Vec<usize>> = around.chunks(if job.thorough() { 7 } else { 5 }).map(|c| c.to_vec()).collect();
        sets.extend(all.chunks(if scale == 1 { 4 } else { 6 }).map(|c| c.to_vec()));
        for set in sets {
            n += 1;
            if !job.mine(n % 8 + 1) {
                continue;
            }
            let (black, set2) = (black.clone(), set.clone());
            b.fresh();
            let inp = || -> Inp<'tcx> { let (set2, black) = (set2.clone(), black.clone()); Box::new(move |e, _, tag, y, x| match (tag, y, x) {
                (70, Val::C(y), Val::C(x)) => {
                    let i = (y * w + x) as usize;
                    if set2.contains(&i) { Ok(mk_bits(vec![Bit::atom(e.dom.named(1, vec![y, x]))])) } else { Ok(Val::C(black[i] as u64)) }
                }
                (t, ..) => Err(format!("unexpected input {t}")),
            }) };
            outcomes(&b, rep, "__vy::h_tiny", vec![Val::C(w), Val::C(h)], &inp, &format!("one finder pattern in {w} by {h} pixels, {} pixels from {:?} unknown", set.len(), cells[set[0]]), at, 1);
        }
    }
    stats(&b, rep);
}

fn word<'tcx>(e: &Engine<'tcx>, key: u64, k: u64, bits: u64, base: u64) -> Val {
    let v = mk_bits((0..bits).map(|j| Bit::atom(e.dom.named(2, vec![key, k, j]))).collect());
    if base == 0 { v } else { e.dom.binop(Op::Add, &v, &Val::C(base), 64, false) }
}

pub fn c38<'tcx>(tcx: TyCtxt<'tcx>, job: &Job, rep: &mut Report) {
    let mut b = Bench::new(tcx, job);
    let at = "geometry::BresenhamScan";
    let max = if job.thorough() { 40i64 } else { 16 };
    let mut ds: Vec<(i64, i64)> = (-max..=max).flat_map(|y| (-max..=max).map(move |x| (x, y))).collect();
    for n in [50i64, 97, 128, 200] {
        for m in [0, 1, 2, n / 3, n / 2, n / 2 + 1, n - 1, n] {
            ds.extend([(n, m), (-n, m), (m, n), (m, -n), (-m, -n), (-n, -m)]);
        }
    }
    for (i, (dx, dy)) in ds.into_iter().enumerate() {
        if !job.mine(i % 8 + 1) {
            continue;
        }
        b.fresh();
        for far in [false, true] {
        let inp = || -> Inp<'tcx> { Box::new(move |e, _, tag, a, _| match (tag, a) {
            (72, Val::C(a)) if far => Ok(Val::F(std::rc::Rc::new(crate::real::atom(a, true, Some((300, 1 << 30)))))),
            (72, Val::C(a)) => Ok(word(e, 72, a, 5, 300)),
            (t, _) => Err(format!("unexpected input {t}")),
        }) };
        outcomes(&b, rep, "__vb::h_line", vec![Val::C(dx as u64), Val::C(dy as u64)], &inp, &format!("line from an unknown point{} by ({dx},{dy})", if far { " anywhere" } else { "" }), at, 1);
        }
    }
    // colour changes: unknown pixels
    b.e.cfg.no_join = true;
    let at = "identify::grid::timing_scan";
    let mut i = 0;
    for (dx, dy) in [(1i64, 0i64), (0, 1), (1, 1), (-1, 0), (0, -1), (-1, 1), (1, -1), (-1, -1)] {
        for n in [0i64, 1, 2, 5, 7, 8] {
            for (x, y) in [(0i64, 0i64), (13, 13), (0, 13), (13, 0), (6, 7), (-2, 3), (5, 15)] {
                i += 1;
                if !job.mine(i % 8 + 1) {
                    continue;
                }
                b.fresh();
                let inp = || -> Inp<'tcx> { Box::new(|e, _, tag, y, x| match (tag, y, x) {
                    (73, Val::C(y), Val::C(x)) => Ok(mk_bits(vec![Bit::atom(e.dom.named(1, vec![y, x]))])),
                    (t, ..) => Err(format!("unexpected input {t}")),
                }) };
                let args = [14, 14, x, y, dx, dy, n].iter().map(|v| Val::C(*v as u64)).collect();
                let name = format!("{n} steps of ({dx},{dy}) from ({x},{y})");
                outcomes(&b, rep, "identify::grid::__vbg::h_count", args, &inp, &name, at, 1);
            }
        }
    }
    // more changes than fit a byte: a chequerboard with some unknown pixels
    for (dx, dy) in [(1i64, 0i64), (0, 1), (1, 1), (-1, 0), (0, -1)] {
        for n in if job.thorough() { vec![260i64, 520, 66000] } else { vec![260i64, 520] } {
            i += 1;
            if !job.mine(i % 8 + 1) || n > 60000 && dx * dy != 0 {
                continue;
            }
            b.fresh();
            let inp = || -> Inp<'tcx> { Box::new(move |e, _, tag, y, x| match (tag, y, x) {
                (73, Val::C(y), Val::C(x)) if x.max(y) % (n as u64 / 3) == 7 => Ok(mk_bits(vec![Bit::atom(e.dom.named(1, vec![y, x]))])),
                (73, Val::C(y), Val::C(x)) => Ok(Val::C(x.max(y) & 1)),
                (t, ..) => Err(format!("unexpected input {t}")),
            }) };
            let (w, h) = (n * dx.abs() + 1, n * dy.abs() + 1);
            let (x, y) = (if dx < 0 { n } else { 0 }, if dy < 0 { n } else { 0 });
            let args = [w, h, x, y, dx, dy, n].iter().map(|v| Val::C(*v as u64)).collect();
            outcomes(&b, rep, "identify::grid::__vbg::h_count", args, &inp, &format!("{n} steps of ({dx},{dy}) with a change at every step"), at, 1);
        }
    }
    stats(&b, rep);
}

pub fn c39<'tcx>(tcx: TyCtxt<'tcx>, job: &Job, rep: &mut Report) {
    let mut b = Bench::new(tcx, job);
    b.e.cfg.no_join = true;
    let at = "detect::LineScanner";
    let pixels = || -> Inp<'tcx> {
        Box::new(|e, _, tag, i, _| match (tag, i) {
            (75, Val::C(i)) => Ok(mk_bits(vec![Bit::atom(e.dom.named(1, vec![i]))])),
            (t, _) => Err(format!("unexpected input {t}")),
        })
    };
    let max = if job.thorough() { 14 } else { 12 };
    for n in (1..=max).rev() {
        if !job.mine((max - n) as usize % 8 + 1) {
            continue;
        }
        b.fresh();
        outcomes(&b, rep, "detect::__vbd::h_row", vec![Val::C(n)], &pixels, &format!("every row of {n} pixels"), at, 1);
    }
    let mut i = 0;
    let mut run = |b: &Bench<'tcx>, rep: &mut Report, pre: u64, l: [u64; 5], want: bool| {
        i += 1;
        if !job.mine(i % 8 + 1) {
            return;
        }
        b.fresh();
        let mut args = vec![Val::C(pre)];
        args.extend(l.iter().map(|x| Val::C(*x)));
        // not reporting is only wrong for the patterns that must be
        outcomes(b, rep, "detect::__vbd::h_runs5", args, &pixels, &format!("runs of {l:?} pixels after {pre} unknown pixels"), at, if want { 1 } else { 2 });
    };
    for k in (1..=40u64).chain([57, 64, 100, 128, 255, 256, 300, 1000]) {
        for pre in if k < 12 { vec![0u64, 1, 3, 6, 7] } else { vec![0, 2] } {
            run(&b, rep, pre, [k, k, 3 * k, k, k], true);
        }
        // an eighth of a module off, each run either way
        let e = k / 8;
        if e > 0 {
            for s in 0..243u64 {
                if k > 24 && s % 11 != k % 11 {
                    continue;
                }
                let off = |j: u32| (s / 3u64.pow(j) % 3) as i64 - 1;
                let l: Vec<u64> = (0..5).map(|j| ([k, k, 3 * k, k, k][j as usize] as i64 + off(j) * e as i64) as u64).collect();
                run(&b, rep, 0, [l[0], l[1], l[2], l[3], l[4]], true);
            }
        }
    }
    stats(&b, rep);
}

pub fn c40<'tcx>(tcx: TyCtxt<'tcx>, job: &Job, rep: &mut Report) {
    let b = Bench::new(tcx, job);
    let mut i = 0;
    // the second row has unknown ends, the first is one of a few
    let firsts: [[u64; 3]; 5] = [[0, 0, 0], [3, 9, 5], [0, 15, 15], [12, 15, 1], [7, 8, 7]];
    let starts: [(i64, i64); 6] = [(0, 0), (15, 0), (7, 7), (4, 12), (15, 15), (0, 9)];
    let inp = move |first: [u64; 3], dir: u64| -> Inp<'tcx> {
        Box::new(move |e, _, tag, k, _| match (tag, k) {
            (74, Val::C(k)) if k < 3 => Ok(Val::C(first[k as usize])),
            (74, Val::C(k)) => Ok(word(e, 74, k, 4, 0)),
            (76, _) => Ok(Val::C(dir)),
            (t, _) => Err(format!("unexpected input {t}")),
        })
    };
    for f in firsts {
        for (x, y) in starts {
            i += 1;
            if job.mine(i % 8 + 1) {
                b.fresh();
                outcomes(&b, rep, "detect::__vbd::h_first", vec![Val::C(x as u64), Val::C(y as u64)], &|| inp(f, 0), &format!("farthest point from ({x},{y}), rows {f:?} and any"), "detect::FirstCornerFinder", 1);
            }
            for (cx, cy) in starts {
                for dir in 0..4 {
                    i += 1;
                    if (cx, cy) == (x, y) || !job.mine(i % 8 + 1) {
                        continue;
                    }
                    b.fresh();
                    let args = vec![Val::C(x as u64), Val::C(y as u64), Val::C(cx as u64), Val::C(cy as u64)];
                    outcomes(&b, rep, "detect::__vbd::h_all", args, &|| inp(f, dir), &format!("corner {dir} along ({x},{y}) to ({cx},{cy}), rows {f:?} and any"), "detect::AllCornerFinder", 1);
                }
            }
        }
    }
    for (lx, ly) in [(1i64, 0i64), (0, 1), (-1, 0), (0, -1), (5, 3), (-7, 2), (40, -33), (-100, -101), (3, 60)] {
        for (x, y) in starts {
            i += 1;
            if !job.mine(i % 8 + 1) {
                continue;
            }
            b.fresh();
            let inp = || -> Inp<'tcx> { Box::new(move |e, _, tag, k, _| match (tag, k) {
                (74, Val::C(k)) => Ok(word(e, 74, k, 5, 0)),
                (t, _) => Err(format!("unexpected input {t}")),
            }) };
            let args = [lx, ly, x, y].iter().map(|v| Val::C(*v as u64)).collect();
            outcomes(&b, rep, "identify::grid::__vbg::h_left", args, &inp, &format!("leftmost of a row and ({x},{y}) along ({lx},{ly})"), "identify::grid::LeftMostFinder", 1);
        }
    }
    stats(&b, rep);
}
