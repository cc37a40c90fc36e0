//! Grouping of finder patterns and the size of detected grids.
use super::decode::stats;
use super::*;

/// positions of the finder patterns, in pixels
fn lattices(thorough: bool) -> Vec<(&'static str, Vec<(i64, i64)>)> {
    let g = |w: i64, h: i64, s: i64| -> Vec<(i64, i64)> { (0..h).flat_map(|y| (0..w).map(move |x| (x * s, y * s))).collect() };
    let mut v = vec![
        ("one symbol", vec![(0, 0), (40, 0), (0, 40)]),
        ("one symbol and a stray pattern", vec![(0, 0), (40, 0), (0, 40), (43, 38)]),
        ("a square of four", g(2, 2, 50)),
        ("two rows of three", g(3, 2, 60)),
        ("two symbols apart", vec![(0, 0), (40, 0), (0, 40), (1000, 700), (1100, 700), (1000, 800)]),
        ("none", vec![]),
        ("two patterns", vec![(0, 0), (30, 0)]),
    ];
    if thorough {
        v.push(("three by three", g(3, 3, 50)));
    }
    v
}

pub fn c27<'tcx>(tcx: TyCtxt<'tcx>, job: &Job, rep: &mut Report) {
    let mut b = Bench::new(tcx, job);
    b.e.cfg.no_join = true;
    b.e.cfg.redirect = vec![("SkewedGridLocation::from_group".into(), "__vt::from_group".into()), ("capstones_from_image".into(), "__vt::capstones_from_image".into())];
    for (li, (name, pts)) in lattices(job.thorough()).into_iter().enumerate() {
        if !job.mine(li % 8 + 1) {
            continue;
        }
        b.fresh();
        let n = pts.len();
        let outs = b.run(
            "__vt::h_detect",
            vec![],
            Box::new(move |e, st, tag, a, _| {
                let Val::C(a) = a else { return Err("abstract selector".into()) };
                match tag {
                    88 => {
                        let k = st.outs(101).len();
                        st.push_ev(Ev::Out(101, vec![]));
                        Ok(Val::C(k as u64))
                    }
                    89 => Ok(mk_bits(vec![Bit::atom(e.dom.named(2, vec![a]))])),
                    95 => Ok(Val::C(n as u64)),
                    96 => Ok(Val::C(if a & 1 == 0 { pts[a as usize / 2].0 } else { pts[a as usize / 2].1 } as u64)),
                    t => Err(format!("unexpected input {t}")),
                }
            }),
        );
        let outs = match outs {
            Ok(o) => o,
            Err(e) => {
                rep.undecided(&format!("{name}: {e}"));
                continue;
            }
        };
        rep.count("partitions", outs.len() as u64);
        let mut bad = None;
        let mut und = None;
        let (mut calls, mut rejected) = (0, 0);
        for (st, o) in &outs {
            let nums = |t: u64| -> Vec<u64> { st.outs(t).concat().iter().map(|v| if let Val::C(c) = crate::guard::reduce_val(&st.guard, v) { c } else { u64::MAX }).collect() };
            match o {
                Outcome::Return(Val::C(0)) => {}
                o => {
                    und = Some(format!("{o:?}"));
                    continue;
                }
            }
            let (group, yes) = (nums(90), nums(92));
            if yes.len() != group.len() || yes.iter().any(|y| *y > 1) {
                und = Some("answers of the group test not tracked".into());
                continue;
            }
            calls += group.len();
            rejected += yes.iter().filter(|y| **y == 0).count();
            let text = |i: usize| format!("test {i} (patterns {:?}, {})", [group[i] / 10000, group[i] / 100 % 100, group[i] % 100], if yes[i] == 1 { "accepted" } else { "rejected" });
            for m in nums(91) {
                let (by, of) = ((m / 1000) as usize, (m % 1000) as usize);
                if yes[of] == 0 || group[of] == group[by] {
                    bad = Some(format!("{} works on an image changed by {}", text(by), text(of)));
                }
            }
            for m in nums(93) {
                if yes[m as usize] == 0 {
                    bad = Some(format!("the searched image is left changed by {}", text(m as usize)));
                }
            }
        }
        rep.count("group_tests", calls as u64);
        rep.count("rejected_tests", rejected as u64);
        match (bad, und) {
            (Some(t), _) => rep.violation_with("prepare::PreparedImage::find_groupings/detect_grids", &format!("{name} ({n} patterns): {t}"), &t),
            (None, Some(u)) => rep.undecided(&format!("{name}: {u}")),
            _ if n >= 3 && (calls == 0 || rejected == 0) => rep.undecided(&format!("{name}: no test of a group was seen")),
            _ => rep.ok(),
        }
    }
    // the copies are copies
    for k in [0usize, 1, 2, 5, 17, 40] {
        if !job.mine(k % 8 + 1) {
            continue;
        }
        b.fresh();
        let outs = b.run("__vt::h_copy", vec![Val::C(k as u64)], Box::new(|_, _, t, _, _| Err(format!("unexpected input {t}"))));
        match outs {
            Err(e) => rep.undecided(&format!("copy with {k} regions: {e}")),
            Ok(o) => match &o[..] {
                [(_, Outcome::Return(_))] => rep.ok(),
                [(_, Outcome::Panic { msg, at, .. })] => rep.violation_with("prepare::PreparedImage::clone", &format!("copy of an image with {k} known regions: {msg}"), at),
                o => rep.undecided(&format!("copy with {k} regions: {} outcomes {:?}", o.len(), o.first().map(|x| &x.1))),
            },
        }
    }
    stats(&b, rep);
}

pub fn c37<'tcx>(tcx: TyCtxt<'tcx>, job: &Job, rep: &mut Report) {
    let mut b = Bench::new(tcx, job);
    b.e.cfg.no_join = true;
    b.e.cfg.redirect = vec![("SkewedGridLocation::from_group".into(), "__vt::from_group".into()), ("capstones_from_image".into(), "__vt::capstones_from_image".into())];
    let mut all = lattices(false);
    all.insert(0, ("a cross of five", vec![(50, 0), (0, 50), (50, 50), (100, 50), (50, 100)]));
    all.insert(1, ("a tee of four", vec![(0, 50), (50, 50), (100, 50), (50, 100)]));
    all.insert(2, ("a comb of five", vec![(50, 0), (0, 0), (100, 0), (0, 50), (100, 50)]));
    all.insert(3, ("two symbols sharing a row", vec![(0, 0), (60, 0), (0, 60), (200, 0), (260, 0), (260, 60)]));
    let g = |w: i64, h: i64| -> Vec<(i64, i64)> { (0..h).flat_map(|y| (0..w).map(move |x| (x * 50, y * 50))).collect() };
    all.insert(4, ("three by three", g(3, 3)));
    all.push(("two rows of four", g(4, 2)));
    all.push(("two rows of five", g(5, 2)));
    all.push(("three rows of four", g(4, 3)));
    let at = "prepare::PreparedImage::find_groupings";
    for (li, (name, pts)) in all.into_iter().enumerate() {
        if !job.mine(li % 8 + 1) {
            continue;
        }
        b.fresh();
        let n = pts.len();
        let p2 = pts.clone();
        let outs = b.run(
            "__vt::h_detect",
            vec![],
            Box::new(move |e, st, tag, a, _| {
                let Val::C(a) = a else { return Err("abstract selector".into()) };
                match tag {
                    88 => {
                        let k = st.outs(101).len();
                        st.push_ev(Ev::Out(101, vec![]));
                        Ok(Val::C(k as u64))
                    }
                    // the answer depends on the three patterns, not on their order
                    89 => {
                        let mut g = [a / 10000, a / 100 % 100, a % 100];
                        g.sort();
                        Ok(mk_bits(vec![Bit::atom(e.dom.named(2, g.to_vec()))]))
                    }
                    95 => Ok(Val::C(n as u64)),
                    96 => Ok(Val::C(if a & 1 == 0 { p2[a as usize / 2].0 } else { p2[a as usize / 2].1 } as u64)),
                    t => Err(format!("unexpected input {t}")),
                }
            }),
        );
        let outs = match outs {
            Ok(o) => o,
            Err(e) => {
                rep.undecided(&format!("{name}: {e}"));
                continue;
            }
        };
        rep.count("partitions", outs.len() as u64);
        // corners of symbols: two legs of the same length at right angles
        let mut corners: Vec<Vec<u64>> = vec![];
        for m in 0..n {
            for a in 0..n {
                for c in 0..n {
                    if a != m && c != m && a != c && pts[a].1 == pts[m].1 && pts[c].0 == pts[m].0 && (pts[a].0 - pts[m].0).abs() == (pts[c].1 - pts[m].1).abs() {
                        let mut g = vec![a as u64, m as u64, c as u64];
                        g.sort();
                        corners.push(g);
                    }
                }
            }
        }
        let (mut bad, mut und): (Option<String>, Option<String>) = (None, None);
        let mut tests = 0;
        for (st, o) in &outs {
            let nums = |t: u64| -> Vec<u64> { st.outs(t).concat().iter().map(|v| if let Val::C(c) = crate::guard::reduce_val(&st.guard, v) { c } else { u64::MAX }).collect() };
            if !matches!(o, Outcome::Return(Val::C(0))) {
                und = Some(format!("{o:?}"));
                continue;
            }
            let (group, yes, found) = (nums(90), nums(92), nums(94));
            if yes.len() != group.len() || yes.iter().any(|y| *y > 1) || found.len() != 1 {
                und = Some("answers of the group test not tracked".into());
                continue;
            }
            tests += group.len();
            let sets: Vec<Vec<u64>> = group
                .iter()
                .map(|g| {
                    let mut v = vec![g / 10000, g / 100 % 100, g % 100];
                    v.sort();
                    v
                })
                .collect();
            // the searched image is tested again for every accepted group
            let mut accepted: Vec<&Vec<u64>> = (0..sets.len()).filter(|i| yes[*i] == 1).map(|i| &sets[i]).collect();
            accepted.sort();
            accepted.dedup();
            for i in 0..accepted.len() {
                for j in 0..i {
                    if let Some(x) = accepted[i].iter().find(|x| accepted[j].contains(x)) {
                        bad = Some(format!("finder pattern {x} is part of the grids of patterns {:?} and of patterns {:?}", accepted[j], accepted[i]));
                    }
                }
            }
            if found[0] != accepted.len() as u64 {
                bad = Some(format!("{} grids are reported for the accepted groups {accepted:?}", found[0]));
            }
            if accepted.iter().any(|a| a[0] == a[1] || a[1] == a[2]) {
                bad = Some(format!("one finder pattern is used twice in a grid: {accepted:?}"));
            }
            for c in &corners {
                if !sets.contains(c) && !accepted.iter().any(|a| a.iter().any(|x| c.contains(x))) {
                    bad = Some(format!("finder patterns {c:?}, unused and at right angles, are never tested as a symbol; accepted {accepted:?}"));
                }
            }
        }
        match (bad, und) {
            (Some(t), _) => rep.violation_with(at, &format!("{name} ({n} patterns): {t}"), &t),
            (None, Some(u)) => rep.undecided(&format!("{name}: {u}")),
            _ if !corners.is_empty() && tests == 0 => rep.undecided(&format!("{name}: no test of a group was seen")),
            _ => rep.ok(),
        }
    }
    stats(&b, rep);
}

pub fn c30<'tcx>(tcx: TyCtxt<'tcx>, job: &Job, rep: &mut Report) {
    let mut b = Bench::new(tcx, job);
    b.e.cfg.no_join = true;
    b.e.cfg.redirect = ["timing_scan", "find_alignment_pattern", "setup_perspective"].iter().map(|f| (format!("::{f}"), format!("__vz::{f}"))).collect();
    // numbers of colour changes along both lines
    let mut v: Vec<(u64, u64)> = vec![];
    for h in 0..=700u64 {
        v.push((h, 0));
        v.push((1, h));
        v.push((h, h));
        v.push((h, h.saturating_sub(1 + h % 3)));
    }
    for k in 0..31 {
        for d in [-1i64, 0, 1] {
            let h = ((1i64 << k) + d) as u64;
            v.push((h, 2));
            v.push((2, h));
        }
    }

    for (i, (h, w)) in v.into_iter().enumerate() {
        if !job.mine(i % 8 + 1) {
            continue;
        }
        b.fresh();
        let (turn, swap) = ((i * 29 % 64) as u64, (i / 3 % 2) as u64);
        let name = format!("{h} colour changes on the upper and {w} on the left timing line");
        let inp = Box::new(move |_: &Engine<'tcx>, _: &mut State<'tcx>, tag: u64, a: Val, _: Val| match (tag, a) {
            (97, Val::C(1)) => Ok(Val::C(h)),
            (97, Val::C(_)) => Ok(Val::C(w)),
            (t, _) => Err(format!("unexpected input {t}")),
        });
        let outs = match b.run("__vz::h_size", vec![Val::C(turn), Val::C(swap)], inp) {
            Err(e) => {
                rep.undecided(&format!("{name}: {e}"));
                continue;
            }
            Ok(o) => o,
        };
        let [(st, o)] = &outs[..] else {
            rep.undecided(&format!("{name}: {} outcomes", outs.len()));
            continue;
        };
        let sizes = st.outs(20).concat();
        let seen = st.outs(97).len();
        match (o, &sizes[..]) {
            // stopped before a grid was made
            (Outcome::Panic { .. }, _) => {
                rep.count("refused_by_panic", 1);
                if seen == 0 {
                    rep.undecided(&format!("{name}: {o:?}"));
                } else {
                    rep.ok()
                }
            }
            _ if seen == 0 => rep.undecided(&format!("{name}: the timing lines were not asked for")),
            (Outcome::Return(Val::C(1)), _) => {
                // an undamaged symbol has n - 13 changes on both lines
                if h == w && h >= 8 && h <= 164 && h % 4 == 0 {
                    rep.violation_with("identify::grid::SkewedGridLocation::from_group", &format!("{name}: no grid for the timing pattern of version {}", (h - 4) / 4), &name);
                } else {
                    rep.ok()
                }
            }
            (Outcome::Return(Val::C(0)), [Val::C(n)]) => {
                if *n < 21 || *n > 177 || (*n - 17) % 4 != 0 {
                    rep.violation_with("identify::grid::SkewedGridLocation::from_group", &format!("{name}: a grid of size {n} is reported"), &name);
                } else if h == w && h >= 8 && h <= 164 && h % 4 == 0 && *n != h + 13 {
                    rep.violation_with("identify::grid::SkewedGridLocation::from_group", &format!("{name}: size {n} is reported for the timing pattern of size {}", h + 13), &name);
                } else {
                    rep.ok()
                }
            }
            (o, s) => rep.undecided(&format!("{name}: {o:?} {s:?}")),
        }
    }
    stats(&b, rep);
}
