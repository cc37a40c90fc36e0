//! Image constructors, binarisation, colours, regions.
use super::decode::stats;
use super::*;
use std::rc::Rc;

fn unknown(b: &Bench, bits: u32) -> Val {
    let base = b.e.dom.fresh_aligned(bits);
    mk_bits((0..bits).map(|i| Bit::atom(base + i)).collect())
}
/// a byte whose high bits are given
fn high(b: &Bench, free: u32, top: u64) -> Val {
    let base = b.e.dom.fresh_aligned(8);
    mk_bits((0..8).map(|i| if i < free { Bit::atom(base + i) } else { Bit::k(top >> i & 1 == 1) }).collect())
}

fn sizes(top: usize) -> Vec<(usize, usize)> {
    let mut v = vec![];
    for w in 0..=top {
        for h in 0..=top {
            v.push((w, h));
        }
    }
    for n in [1usize, 2, 3, 5] {
        for m in [15, 16, 17, 31, 33, 64, 100] {
            v.push((n, m));
            v.push((m, n));
        }
    }
    v
}

pub fn c19<'tcx>(tcx: TyCtxt<'tcx>, job: &Job, rep: &mut Report) {
    let b = Bench::new(tcx, job);
    let mut k = 0;
    let mut list = sizes(if job.thorough() { 20 } else { 12 });
    // past the ranges of narrower numbers
    list.extend([(300, 1), (1, 300), (257, 257), (65_600, 1), (1, 65_600)]);
    if job.thorough() {
        list.extend([(4100, 3), (3, 4100), (32_800, 2), (2, 32_800), (65_600, 2), (363, 363)]);
    }
    for (w, h) in list {
        k += 1;
        if !job.mine(k % 8 + 1) {
            continue;
        }
        b.fresh();
        let cells: Vec<Bit> = (0..w * h).map(|_| Bit::atom(b.e.dom.fresh(1))).collect();
        let want: Vec<Val> = cells.iter().map(|c| mk_bits(vec![c.clone()])).collect();
        let dims = |t: Vec<Val>| Exp::Out(vec![(30, vec![Val::C(w as u64)]), (31, vec![Val::C(h as u64)]), (32, t), (33, vec![])]);
        let args = vec![Val::C(w as u64), Val::C(h as u64)];
        let c = Case {
            entry: "__vi::h_bitmap",
            args: args.clone(),
            n: w.max(1),
            cells: cells.clone(),
            expect: vec![(Val::C(1), dims(want.clone()))],
            name: format!("image of {w} by {h} from an unknown bitmap"),
            ..Default::default()
        };
        b.case(&c, rep);
        // existing data: the custom buffer and the image crate's grey image
        for entry in ["__vi::h_without", "__vi::h_luma"] {
            if entry.ends_with("luma") && super::entry(tcx, entry).is_none() {
                continue; // built without the feature
            }
            let c = Case { entry, args: args.clone(), n: w.max(1), px: want.clone(), expect: vec![(Val::C(1), dims(want.clone()))], name: format!("binary data of {w} by {h} ({entry})"), ..Default::default() };
            b.case(&c, rep);
        }
        // one pixel is any byte
        if w * h <= 30 {
            for i in 0..w * h {
                b.fresh();
                let x = unknown(&b, 8);
                let mut px: Vec<Val> = (0..w * h).map(|_| unknown(&b, 1)).collect();
                px[i] = x.clone();
                let ok = b.e.dom.binop(Op::Lt, &x, &Val::C(2), 8, false);
                let bad = b.e.dom.not(&ok, 1);
                let c = Case {
                    entry: "__vi::h_without",
                    args: args.clone(),
                    n: w,
                    px: px.clone(),
                    expect: vec![(ok, dims(px)), (bad, Exp::Panic)],
                    name: format!("data of {w} by {h} with any byte at ({},{})", i % w, i / w),
                    ..Default::default()
                };
                b.case(&c, rep);
            }
        }
    }
    stats(&b, rep);
}

pub fn c20<'tcx>(tcx: TyCtxt<'tcx>, job: &Job, rep: &mut Report) {
    let mut b = Bench::new(tcx, job);
    b.e.cfg.lossy = true;
    let mut k = 0;
    let mut s = sizes(if job.thorough() { 40 } else { 18 });
    for w in [127, 128, 129, 255, 256, 257, 640, 1000, 2048] {
        s.push((w, 3));
        s.push((3, w));
        s.push((w, 0));
        s.push((0, w));
    }
    s.push((64, 64));
    s.push((200, 50));
    for (w, h) in s {
        k += 1;
        if !job.mine(k % 16 + 1) {
            continue;
        }
        b.fresh();
        let px: Vec<Val> = (0..w * h).map(|_| unknown(&b, 8)).collect();
        for entry in ["__vi::h_prepare", "__vi::h_grey", "__vi::h_prepare_luma"] {
            if super::entry(tcx, entry).is_none() || (entry.ends_with("luma") && w * h > 400) {
                continue;
            }
            let c = Case {
                entry,
                args: vec![Val::C(w as u64), Val::C(h as u64), Val::C(u64::MAX)],
                n: w.max(1),
                px: px.clone(),
                ranged: true,
                expect: vec![(Val::C(1), Exp::Out(vec![(30, vec![Val::C(w as u64)]), (31, vec![Val::C(h as u64)])]))],
                name: format!("binarising an unknown image of {w} by {h} ({entry})"),
                ..Default::default()
            };
            b.case(&c, rep);
        }
    }
    stats(&b, rep);
}

pub fn c34<'tcx>(tcx: TyCtxt<'tcx>, job: &Job, rep: &mut Report) {
    let mut b = Bench::new(tcx, job);
    let dims = |w: usize, h: usize, t: u64| vec![(Val::C(1), Exp::Out(vec![(30, vec![Val::C(w as u64)]), (31, vec![Val::C(h as u64)]), (32, vec![Val::C(t)])]))];
    let mut k = 0;
    // evenly lit: one unknown grey value everywhere
    for (w, h) in sizes(9).into_iter().chain([(24, 24), (40, 9), (150, 4), (500, 2)]) {
        if w * h == 0 {
            continue;
        }
        k += 1;
        if !job.mine(k % 16 + 1) {
            continue;
        }
        for (i, at) in [0, w * h / 2, w * h - 1].into_iter().enumerate() {
            b.fresh();
            let p = unknown(&b, 8);
            let c = Case {
                entry: if i == 1 { "__vi::h_grey" } else { "__vi::h_prepare" },
                args: vec![Val::C(w as u64), Val::C(h as u64), Val::C(at as u64)],
                n: w,
                px: vec![p.clone(); w * h],
                expect: dims(w, h, 0),
                name: format!("{w} by {h} pixels of one unknown brightness, pixel {at}"),
                ..Default::default()
            };
            b.case(&c, rep);
        }
    }
    b.e.cfg.lossy = true;
    // contrast: one pixel at one end of the scale, everything else at the other
    for (w, h) in [(16usize, 16usize), (17, 3), (21, 5), (33, 20), (100, 7), (16, 1), (64, 2), (255, 3), (3, 16), (1, 1), (2, 9), (15, 4)] {
        for y in 0..h {
            for x in 0..w {
                // corners, edges, and a scattering of inner positions
                let edge = (x < 2 || x + 2 >= w) as usize + (y < 2 || y + 2 >= h) as usize;
                if edge < 2 && (x * 7 + y * 13) % 41 != 0 && !job.thorough() {
                    continue;
                }
                k += 1;
                if !job.mine(k % 16 + 1) {
                    continue;
                }
                let at = y * w + x;
                let args = vec![Val::C(w as u64), Val::C(h as u64), Val::C(at as u64)];
                for entry in ["__vi::h_prepare", "__vi::h_grey"] {
                    b.fresh();
                    let mut px: Vec<Val> = (0..w * h).map(|_| unknown(&b, 8)).collect();
                    // 248..255
                    px[at] = high(&b, 3, 0xf8);
                    let c = Case { entry, args: args.clone(), n: w, px, ranged: true, expect: dims(w, h, 0), name: format!("bright pixel ({x},{y}) in an unknown image of {w} by {h} ({entry})"), ..Default::default() };
                    b.case(&c, rep);
                    if w >= 16 {
                        b.fresh();
                        // 192..255 around 0..31
                        let mut px: Vec<Val> = (0..w * h).map(|_| high(&b, 6, 0xc0)).collect();
                        px[at] = high(&b, 5, 0);
                        let c = Case { entry, args: args.clone(), n: w, px, ranged: true, expect: dims(w, h, 1), name: format!("dark pixel ({x},{y}) in a bright image of {w} by {h} ({entry})"), ..Default::default() };
                        b.case(&c, rep);
                    }
                }
            }
        }
    }
    stats(&b, rep);
}

pub fn c21<'tcx>(tcx: TyCtxt<'tcx>, job: &Job, rep: &mut Report) {
    let b = Bench::new(tcx, job);
    let x = unknown(&b, 8);
    let one = Val::C(1);
    let c = Case {
        entry: "__vc::h_byte",
        n: 1,
        px: vec![x.clone()],
        expect: vec![(one.clone(), Exp::Out(vec![(34, vec![x.clone()]), (35, vec![one.clone()])]))],
        name: "any byte stored in the image".into(),
        ..Default::default()
    };
    b.case(&c, rep);
    for k in 0..=5u64 {
        b.fresh();
        let r = unknown(&b, 8);
        let y = unknown(&b, 8);
        let d = &b.e.dom;
        // region numbers 0..=250 are those that the detector can assign
        let r = d.map1(&r, |x| x % 251, 8);
        let byte = if k < 5 { Val::C(k) } else { d.map1(&r, |x| x + 5, 8) };
        let eq = d.binop(Op::Eq, &byte, &y, 8, false);
        let c = Case {
            entry: "__vc::h_class",
            args: vec![Val::C(k)],
            n: 2,
            px: vec![r, y],
            expect: vec![(one.clone(), Exp::Out(vec![(34, vec![byte]), (36, vec![one.clone()]), (37, vec![eq])]))],
            name: format!("colour class {}", ["White", "Black", "CapStone", "Alignment", "Tmp1", "Discarded(any)"][k as usize]),
            ..Default::default()
        };
        b.case(&c, rep);
    }
    stats(&b, rep);
}

/// component of `at` in the set given by `same`
fn component(w: usize, h: usize, at: usize, same: &dyn Fn(usize) -> bool) -> Vec<bool> {
    let mut r = vec![false; w * h];
    let mut q = vec![at];
    r[at] = true;
    while let Some(i) = q.pop() {
        let (x, y) = (i % w, i / w);
        let mut go = |j: usize| {
            if same(j) && !r[j] {
                r[j] = true;
                q.push(j);
            }
        };
        if x > 0 {
            go(i - 1)
        }
        if x + 1 < w {
            go(i + 1)
        }
        if y > 0 {
            go(i - w)
        }
        if y + 1 < h {
            go(i + w)
        }
    }
    r
}

/// table over the pixels' atoms: one value per pixel and configuration
fn tables(atoms: &[u32], f: &dyn Fn(u64) -> Vec<u64>) -> Vec<Val> {
    let basis: std::rc::Rc<Vec<std::rc::Rc<Lin>>> = std::rc::Rc::new(atoms.iter().map(|a| std::rc::Rc::new(Lin::atom(*a))).collect());
    let n = 1usize << atoms.len();
    let rows: Vec<Vec<u64>> = (0..n as u64).map(f).collect();
    (0..rows[0].len()).map(|i| norm_tab(Tab { basis: basis.clone(), vals: rows.iter().map(|r| r[i]).collect() })).collect()
}

pub fn c33<'tcx>(tcx: TyCtxt<'tcx>, job: &Job, rep: &mut Report) {
    let mut shapes: Vec<(usize, usize)> = vec![(1, 1), (1, 2), (2, 1), (1, 9), (9, 1), (2, 2), (2, 3), (3, 2), (3, 3), (2, 5), (5, 2), (4, 3), (3, 4)];
    if job.thorough() {
        shapes.extend([(4, 4), (5, 3), (3, 5), (7, 2), (2, 7)]);
    }
    let mut k = 0;
    for (w, h) in shapes {
        for at in 0..w * h {
            // the region's colour, the colours it may be painted with, the other pixels' colours
            let sets: &[(u64, u64, [u64; 3])] = &[(1, 4, [0, 0, 0]), (1, 7, [0, 9, 7]), (9, 1, [0, 1, 2]), (255, 3, [3, 254, 0])];
            for (si, (from, to, others)) in sets.iter().enumerate() {
                k += 1;
                if !job.mine(k % 24 + 1) || (si > 0 && (at + w) % 3 != si - 1 && !job.thorough()) {
                    continue;
                }
                let mut b = Bench::new(tcx, job);
                b.e.cfg.no_join = true;
                let n = w * h;
                let mut atoms = vec![0u32; n];
                let mut list = vec![];
                for i in 0..n {
                    if i != at {
                        atoms[i] = b.e.dom.fresh(1);
                        list.push(atoms[i]);
                    }
                }
                let other = |i: usize| others[(i * 5 + i / 3) % 3];
                let idx = |a: u32| list.iter().position(|x| *x == a).unwrap();
                let px: Vec<Val> = (0..n).map(|i| if i == at { Val::C(*from) } else { tables(&[atoms[i]], &|c| vec![if c & 1 == 1 { *from } else { other(i) }])[0].clone() }).collect();
                let is = |c: u64, i: usize| i == at || c >> idx(atoms[i]) & 1 == 1;
                let fin = tables(&list, &|c| {
                    let r = component(w, h, at, &|i| is(c, i));
                    (0..n).map(|i| if r[i] { *to } else if is(c, i) { *from } else { other(i) }).collect()
                });
                let cover = tables(&list, &|c| component(w, h, at, &|i| is(c, i)).into_iter().map(|x| x as u64).collect());
                let c = Case {
                    entry: "__vf::h_fill",
                    args: vec![Val::C(w as u64), Val::C(h as u64), Val::C(at as u64), Val::C(*to)],
                    n: w,
                    px,
                    table: vec![((57, 0), Val::C(0))],
                    expect: vec![(Val::C(1), Exp::Out(vec![(32, fin), (38, cover)]))],
                    name: format!("painting from ({},{}) in any image of {w} by {h}, colour {from} to {to}", at % w, at / w),
                    ..Default::default()
                };
                b.case(&c, rep);
                stats(&b, rep);
                // the same anywhere in a large image that is white elsewhere
                if w * h > 9 || si > 0 {
                    continue;
                }
                let coord = |i: u64| Val::F(Rc::new(crate::real::atom(i, true, Some((8, 1 << 40)))));
                let part = |x: Val, y: Val| Case {
                    entry: "__vf::h_part",
                    table: vec![((58, 0), x), ((58, 1), y)],
                    args: c.args.clone(),
                    n: w,
                    px: c.px.clone(),
                    expect: c.expect.clone(),
                    name: format!("{}, anywhere in a white image", c.name),
                    ..Default::default()
                };
                b.e.dom.cuts.borrow_mut().clear();
                match b.attempt(&part(coord(0), coord(1)), rep, true) {
                    Verdict::Holds => rep.ok(),
                    v => {
                        // positions around the numbers the coordinates are compared with
                        let mut cuts = b.e.dom.cuts.borrow().clone();
                        cuts.sort_unstable();
                        cuts.dedup();
                        let before = rep.violations.len();
                        let near: Vec<u64> = cuts.iter().flat_map(|c| c - 4..=c + 2).filter(|c| (8..1 << 40).contains(c)).map(|c| c as u64).collect();
                        for c in near.into_iter().take(64) {
                            for (x, y) in [(c, 8), (8, c), (c, c)] {
                                if rep.violations.len() == before {
                                    rep.count("alarms_examined", 1);
                                    if let Verdict::Violation(s, w, m) = b.attempt(&part(Val::C(x), Val::C(y)), rep, true) {
                                        rep.violation_with(&s, &w, &m);
                                    }
                                }
                            }
                        }
                        if rep.violations.len() == before {
                            rep.undecided(&format!("{}, anywhere in a white image: {}", c.name, match v { Verdict::Undecided(u) => u, Verdict::Violation(_, w, _) => w, _ => String::new() }));
                        }
                    }
                }
                stats(&b, rep);
            }
        }
    }
}

/// number of regions the table is created for
fn capacity<'tcx>(b: &Bench<'tcx>, ctor: u64) -> u64 {
    let c = std::rc::Rc::new(std::cell::Cell::new(0u64));
    let c2 = c.clone();
    let _ = b.run(
        "__vf::h_region",
        vec![Val::C(1), Val::C(1), Val::C(0)],
        Box::new(move |_, _, tag, a, _| {
            if let (50, Val::C(a)) = (tag, &a) {
                c2.set(*a);
                return Ok(Val::C(0));
            }
            Ok(Val::C(match tag { 4 => 1, 57 => ctor, _ => 0 }))
        }),
    );
    if c.get() == 0 { 251 } else { c.get() }
}

pub fn c26<'tcx>(tcx: TyCtxt<'tcx>, job: &Job, rep: &mut Report) {
    let one = Val::C(1);
    let mut unit = 0;
    for ctor in 0..2u64 {
        let mut b = Bench::new(tcx, job);
        b.e.cfg.no_join = true;
        let cap = capacity(&b, ctor);
        rep.notes.push(format!("capacity of the region table: {cap}"));
        // shapes of the old region in the two left columns
        let shapes: &[&[usize]] = &[&[0], &[5], &[10], &[0, 5], &[0, 5, 10], &[0, 1, 6], &[10, 11], &[0, 1, 5, 6, 10, 11], &[1, 0, 5, 10, 11]];
        // and larger ones
        let mut shapes: Vec<(usize, Vec<usize>)> = shapes.iter().map(|s| (3, s.to_vec())).collect();
        for h in [20usize, 70, 300] {
            shapes.push((h, (0..h).map(|y| 5 * y).collect()));
            shapes.push((h, (0..2 * h).map(|i| i / 2 * 5 + i % 2).collect()));
        }
        let w = 5usize;
        for (si, (h, shape)) in shapes.iter().enumerate() {
            let h = *h;
            let n = w * h;
            for at in [3usize, 4, 8, 9, 13, 14] {
                for kind in 0..4 {
                    unit += 1;
                    if h > 3 && (kind == 0 || kind == 3 || at < 9 && kind != 1) {
                        continue;
                    }
                    if !job.mine(unit % 24 + 1) || (!job.thorough() && kind != 1 && (si + at) % 3 != kind % 3) {
                        continue;
                    }
                    b.fresh();
                    let d = &b.e.dom;
                    let u = unknown(&b, 8);
                    let num = d.map1(&u, |x| x % cap, 8);
                    let col = d.map1(&num, |x| x + 5, 8);
                    let othernum = d.map1(&num, |x| (x + 7) % cap + 5, 8);
                    // columns 3 and 4: unknown black or white, or another region's colour
                    let mut list = vec![];
                    let mut px = vec![Val::C(0); n];
                    for i in 0..n {
                        if i == at {
                            px[i] = Val::C(1);
                        } else if i % w >= 3 && i / w < 3 {
                            let a = d.fresh(1);
                            list.push((i, a));
                            px[i] = mk_bits(vec![Bit::atom(a)]);
                        } else if i % w == 2 && (i / w + si) % 2 == 0 {
                            px[i] = othernum.clone();
                        }
                    }
                    // kind 0: table not full; 1: full, the region given up is still painted; 2: full, it has become a capstone; 3: alignment pattern
                    for (j, i) in shape.iter().enumerate() {
                        let _ = j;
                        px[*i] = match kind { 0 => Val::C(0), 1 => col.clone(), 2 => Val::C(2), _ => Val::C(3) };
                    }
                    let atoms: Vec<u32> = list.iter().map(|x| x.1).collect();
                    let is = |c: u64, i: usize| i == at || list.iter().position(|x| x.0 == i).map_or(false, |p| c >> p & 1 == 1);
                    let inside = tables(&atoms, &|c| component(w, h, at, &|i| is(c, i)).into_iter().map(|x| x as u64).collect());
                    let count = tables(&atoms, &|c| vec![component(w, h, at, &|i| is(c, i)).iter().filter(|x| **x).count() as u64]).remove(0);
                    let fin: Vec<Val> = (0..n)
                        .map(|i| {
                            if kind == 1 && shape.contains(&i) {
                                return Val::C(1);
                            }
                            if i % w < 3 {
                                return px[i].clone();
                            }
                            d.ite(&inside[i], &col, &px[i], 16).unwrap_or(Val::Undef)
                        })
                        .collect();
                    let src = shape[(at + si) % shape.len()];
                    let mut table = vec![((57, 0), Val::C(ctor))];
                    if kind == 0 {
                        table.push(((50, 1), u.clone()));
                    } else {
                        table.push(((50, 0), Val::C(0)));
                        table.push(((55, 0), Val::C(0)));
                        table.push(((55, 1), Val::C((src % w) as u64)));
                        table.push(((55, 2), Val::C((src / w) as u64)));
                        table.push(((55, 3), Val::C(shape.len() as u64)));
                        table.push(((55, 4), num.clone()));
                    }
                    let twice = |v: Val| vec![v.clone(), v];
                    let num8 = if kind == 0 { d.map1(&u, |x| x % cap, 64) } else { num.clone() };
                    let c = Case {
                        entry: "__vf::h_region",
                        args: vec![Val::C(w as u64), Val::C(h as u64), Val::C(at as u64)],
                        n: w,
                        px,
                        table,
                        expect: vec![(
                            one.clone(),
                            Exp::Out(vec![
                                (51, vec![]),
                                (52, if kind == 0 { vec![] } else { vec![one.clone()] }),
                                (53, vec![num8]),
                                (60, twice(Val::C(0))),
                                (61, twice(col.clone())),
                                (62, twice(Val::C((at % w) as u64))),
                                (63, twice(Val::C((at / w) as u64))),
                                (64, twice(count)),
                                (32, fin),
                            ]),
                        )],
                        name: format!(
                            "new region from ({},{}), {}",
                            at % w,
                            at / w,
                            ["table not full", "table full, any number recycled", "table full, the old region is a finder pattern now", "table full, the old region is an alignment pattern now"][kind]
                        ),
                        ..Default::default()
                    };
                    b.case(&c, rep);
                }
            }
        }
        // pixels of an existing region or of a special class: nothing changes
        for at in 0..4usize {
            unit += 1;
            if !job.mine(unit % 24 + 1) {
                continue;
            }
            for class in 0..5u64 {
                b.fresh();
                let d = &b.e.dom;
                let u = unknown(&b, 8);
                let num = d.map1(&u, |x| x % cap, 8);
                let col = d.map1(&num, |x| x + 5, 8);
                let mut px = vec![Val::C(1), Val::C(0), Val::C(1), col.clone()];
                px[at] = if class == 1 { col.clone() } else { Val::C(class) };
                let table = vec![((57, 0), Val::C(ctor)), ((54, 0), Val::C(0)), ((54, 1), Val::C(1)), ((54, 2), Val::C(0)), ((54, 3), Val::C(3))];
                let e = match class {
                    0 => Exp::Panic,
                    1 => Exp::Out(vec![
                        (51, vec![num]), (52, vec![]), (53, vec![]), (60, vec![Val::C(0)]), (61, vec![col.clone()]), (62, vec![Val::C(1)]), (63, vec![Val::C(0)]), (64, vec![Val::C(3)]), (32, px.clone()),
                    ]),
                    c => Exp::Out(vec![(51, vec![]), (52, vec![]), (53, vec![]), (60, vec![Val::C(c - 1)]), (32, px.clone())]),
                };
                let c = Case {
                    entry: "__vf::h_region",
                    args: vec![Val::C(2), Val::C(2), Val::C(at as u64)],
                    n: 2,
                    px,
                    table,
                    expect: vec![(one.clone(), e)],
                    name: format!("region of a pixel of class {}", ["White", "Discarded(any)", "CapStone", "Alignment", "Tmp1"][class as usize]),
                    ..Default::default()
                };
                b.case(&c, rep);
            }
        }
        stats(&b, rep);
    }
}
