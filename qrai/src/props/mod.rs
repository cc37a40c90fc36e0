mod decode;
mod detect;
mod ecc;
mod geom;
mod image;
mod lint;
mod nopanic;
mod payload;
mod robust;
mod small;
use crate::interp::*;
use crate::lower::*;
use crate::report::Report;
use crate::val::*;
use crate::witness::*;
use rustc_middle::ty::{Instance, TyCtxt};
use std::path::PathBuf;

#[derive(Clone, Debug)]
pub struct Job {
    pub repo: PathBuf,
    pub args: String,
    pub prop: String,
    pub tier: String,
    pub shard: (usize, usize),
    pub out: String,
    pub tmp: String,
    pub only: Option<String>,
    /// the crate's private items could not be used: restrict to the public interface
    pub public: bool,
    pub deadline: std::time::Instant,
}
impl Job {
    pub fn parse(a: &[String]) -> Job {
        let g = |k: &str| a.iter().position(|x| x == k).map(|i| a[i + 1].clone());
        let sh = g("--shard").unwrap_or("0/1".into());
        let (i, n) = sh.split_once('/').unwrap();
        Job {
            repo: g("--repo").unwrap_or("/repo".into()).into(),
            args: g("--args").unwrap(),
            prop: g("--prop").unwrap(),
            tier: g("--tier").unwrap_or("quick".into()),
            shard: (i.parse().unwrap(), n.parse().unwrap()),
            out: g("--out").unwrap(),
            tmp: g("--tmp").unwrap(),
            only: g("--only"),
            public: a.iter().any(|x| x == "--public"),
            deadline: std::time::Instant::now() + std::time::Duration::from_secs(g("--seconds").map_or(3600, |s| s.parse().unwrap())),
        }
    }
    /// name of the unit to be done (None: all)
    pub fn unit(&self, name: &str) -> bool {
        self.only.as_ref().map_or(true, |o| o.split(',').any(|x| x == name))
    }
    pub fn mine(&self, i: usize) -> bool {
        i % self.shard.1 == self.shard.0 && self.only.as_ref().map_or(true, |o| o.split(',').any(|x| x.parse() == Ok(i)))
    }
    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }
}

pub fn harness(job: &Job) -> Vec<(String, String)> {
    if job.prop == "C28" {
        return vec![];
    }
    let mut v: Vec<(String, String)> = vec![("src/lib.rs".into(), include_str!("../../harness/lib.rs").into())];
    let raw = include_str!("../../harness/raw.rs");
    let img = include_str!("../../harness/image.rs");
    let color = include_str!("../../harness/color.rs");
    let geom = include_str!("../../harness/geom.rs");
    let sample = include_str!("../../harness/sample.rs");
    let trial = include_str!("../../harness/trial.rs");
    let size = include_str!("../../harness/size.rs");
    let flood = include_str!("../../harness/flood.rs");
    let (public, private): (&[&str], &[&str]) = match job.prop.as_str() {
        "C02" => (&[], &[raw]),
        "C19" | "C20" | "C34" => (&[img], &[]),
        "C05" | "C15" => (&[], &[include_str!("../../harness/panic.rs")]),
        "C21" => (&[], &[color]),
        "C26" | "C33" => (&[], &[flood]),
        "C22" | "C23" | "C24" => (&[], &[geom]),
        "C25" => (&[], &[geom, sample]),
        "C27" | "C37" => (&[], &[trial, include_str!("../../harness/lru.rs")]),
        "C30" => (&[], &[size]),
        "C35" => (&[], &[size, include_str!("../../harness/group.rs"), include_str!("../../harness/lru.rs")]),
        "C38" => (&[], &[include_str!("../../harness/scan.rs")]),
        "C36" => (&[include_str!("../../harness/tiny.rs")], &[include_str!("../../harness/lru.rs")]),
        _ => (&[], &[]),
    };
    for p in public {
        v.push(("src/lib.rs".into(), p.to_string()));
    }
    if !job.public {
        if job.prop == "C15" || job.prop == "C05" {
            v.push(("src/decode.rs".into(), include_str!("../../harness/panic_in.rs").into()));
        }
        let scan_grid = ("src/identify/grid.rs".to_string(), include_str!("../../harness/scan_grid.rs").to_string());
        if job.prop == "C38" || job.prop == "C40" {
            v.push(scan_grid);
        }
        if job.prop == "C39" || job.prop == "C40" {
            v.push(("src/detect.rs".into(), include_str!("../../harness/scan_detect.rs").into()));
        }
        if job.prop == "C35" {
            v.push(("src/identify/grid.rs".into(), include_str!("../../harness/group_in.rs").into()));
        }
        for p in private {
            v.push(("src/lib.rs".into(), p.to_string()));
        }
    }
    v
}

pub fn entry<'tcx>(tcx: TyCtxt<'tcx>, path: &str) -> Option<Instance<'tcx>> {
    entry_def(tcx, path).map(|d| Instance::mono(tcx, d))
}
pub fn entry_def<'tcx>(tcx: TyCtxt<'tcx>, path: &str) -> Option<rustc_span::def_id::DefId> {
    tcx.hir_body_owners().map(|d| d.to_def_id()).find(|d| tcx.def_path_str(*d) == path)
}

pub struct Run<'tcx> {
    pub outs: Vec<(State<'tcx>, Outcome)>,
    pub inp: Box<dyn FnMut(&Engine<'tcx>, &mut State<'tcx>, u64, Val, Val) -> Result<Val, String> + 'tcx>,
}
impl<'tcx> Client<'tcx> for Run<'tcx> {
    fn input(&mut self, e: &Engine<'tcx>, st: &mut State<'tcx>, tag: u64, a: Val, b: Val) -> Result<Val, String> {
        (self.inp)(e, st, tag, a, b)
    }
    fn done(&mut self, _e: &Engine<'tcx>, st: State<'tcx>, o: Outcome) {
        self.outs.push((st, o));
    }
}

pub fn arg<'tcx>(e: &Engine<'tcx>, v: Val) -> Arg<'tcx> {
    let ty = e.lo.tcx.types.usize;
    Arg { ty, ti: e.lo.ti(ty), vals: vec![(0, 8, v)] }
}

pub struct Bench<'tcx> {
    pub e: Engine<'tcx>,
}

impl<'tcx> Bench<'tcx> {
    pub fn new(tcx: TyCtxt<'tcx>, job: &Job) -> Self {
        let mut e = Engine::new(Lower::new(tcx));
        e.cfg.deadline = Some(job.deadline);
        Bench { e }
    }
    pub fn fresh(&self) {
        self.e.dom.next_atom.set(0);
        self.e.dom.names.borrow_mut().clear();
    }
    pub fn run(
        &self,
        entry_path: &str,
        args: Vec<Val>,
        inp: Box<dyn FnMut(&Engine<'tcx>, &mut State<'tcx>, u64, Val, Val) -> Result<Val, String> + 'tcx>,
    ) -> Result<Vec<(State<'tcx>, Outcome)>, String> {
        let i = entry(self.e.lo.tcx, entry_path).ok_or_else(|| format!("no entry point {entry_path}"))?;
        let f = self.e.lo.fid(i);
        let mut r = Run { outs: vec![], inp };
        self.e.run(f, args.into_iter().map(|v| arg(&self.e, v)).collect(), &mut r)?;
        Ok(r.outs)
    }
}

/// answers module queries from a table of bits; anything outside is reported.
/// `sched` answers the k-th write request (accept everything when exhausted).
pub fn grid_input<'tcx>(n: usize, cells: Vec<Bit>, sched: Vec<Val>, px: Vec<Val>, ranged: bool, table: Vec<((u64, u64), Val)>) -> Box<dyn FnMut(&Engine<'tcx>, &mut State<'tcx>, u64, Val, Val) -> Result<Val, String>> {
    Box::new(move |_, st, tag, a, b| {
        if tag == 1 {
            let k = st.outs(100).len();
            st.push_ev(Ev::Out(100, vec![]));
            return Ok(sched.get(k).cloned().unwrap_or(Val::C(0)));
        }
        if tag == 2 {
            return Ok(Val::C(0));
        }
        if tag >= 50 {
            let a = match crate::guard::reduce_val(&st.guard, &a) {
                Val::C(a) => a,
                _ => return Err("input with an abstract selector".into()),
            };
            // size of the region table, number of the region given up: (.., 0) says full, otherwise an unknown below the capacity
            if tag == 50 {
                match table.iter().find(|t| t.0 .0 == 50) {
                    Some(((_, 0), _)) => return Ok(Val::C(a)),
                    Some((_, v)) => return Ok(Dom::new().map1(v, |x| x % a, 64)),
                    None => return Err("!unexpected request for the number of regions".into()),
                }
            }
            return table.iter().find(|t| t.0 == (tag, a)).map(|t| t.1.clone()).ok_or_else(|| format!("!unexpected request {tag}.{a}"));
        }
        if tag == 4 {
            let (a, b) = (crate::guard::reduce_val(&st.guard, &a), crate::guard::reduce_val(&st.guard, &b));
            let (Val::C(y), Val::C(x)) = (&a, &b) else { return Err("pixel query at an abstract position".into()) };
            if *x >= n as u64 || *y >= (px.len() / n) as u64 {
                return Err(format!("!pixel query outside the image ({x},{y})"));
            }
            let v = px[*y as usize * n + *x as usize].clone();
            return Ok(if ranged && !matches!(v, Val::C(_)) {
                let (lo, hi) = span(&v);
                Val::R(lo, hi)
            } else {
                v
            });
        }
        if tag != 0 && tag != 3 {
            return Err(format!("unexpected input {tag}"));
        }
        let (a, b) = (crate::guard::reduce_val(&st.guard, &a), crate::guard::reduce_val(&st.guard, &b));
        let (Val::C(y), Val::C(x)) = (&a, &b) else { return Err("module query at an abstract position".into()) };
        if *x >= n as u64 || *y >= (cells.len() / n) as u64 {
            return Err(format!("!module query outside the grid ({y},{x}) of {n}"));
        }
        Ok(mk_bits(vec![cells[*y as usize * n + *x as usize].clone()]))
    })
}

/// least and greatest member of a value given by bits
pub fn span(v: &Val) -> (u64, u64) {
    match v {
        Val::C(c) => (*c, *c),
        Val::B(b) => b.iter().enumerate().fold((0, 0), |(l, h), (i, x)| match x.konst() {
            Some(false) => (l, h),
            Some(true) => (l | 1 << i, h | 1 << i),
            None => (l, h | 1 << i),
        }),
        Val::T(t) => (*t.vals.iter().min().unwrap(), *t.vals.iter().max().unwrap()),
        _ => (0, 255),
    }
}

pub fn byte_val(b: &[Bit]) -> Val {
    let mut v: Vec<Bit> = b.to_vec();
    v.reverse();
    mk_bits(v)
}


/// what the environment expects of a run
#[derive(Clone, Debug)]
pub enum Exp {
    /// one of these error codes, nothing written
    Err(Vec<u64>),
    /// one of these error codes, anything written
    ErrAny(Vec<u64>),
    Ok { meta: Option<[u64; 3]>, bytes: Vec<Val> },
    /// success, and the values reported under each tag are these
    Out(Vec<(u64, Vec<Val>)>),
    /// the analysed code panics (documented refusal)
    Panic,
    /// one of these error codes, and what was written is a prefix of these bytes
    ErrPrefix(Vec<u64>, Vec<Val>),
    /// any return value (no panic)
    NoPanic,
    /// not specified
    Any,
}

#[derive(Clone)]
pub struct Case {
    pub entry: &'static str,
    pub args: Vec<Val>,
    /// columns of the table `cells`
    pub n: usize,
    pub cells: Vec<Bit>,
    /// (condition, expectation): conditions are disjoint and cover everything
    pub expect: Vec<(Val, Exp)>,
    pub name: String,
    /// answers to write requests
    pub sched: Vec<Val>,
    /// pixels of an image with `n` columns
    pub px: Vec<Val>,
    /// supply unknown pixels as intervals (unrelated to each other) and join at every merge point
    pub ranged: bool,
    /// answers to other requests, by (tag, first argument)
    pub table: Vec<((u64, u64), Val)>,
}
impl Default for Case {
    fn default() -> Case {
        Case { entry: "", args: vec![], n: 1, cells: vec![], expect: vec![], name: String::new(), sched: vec![], px: vec![], ranged: false, table: vec![] }
    }
}

pub enum Verdict {
    Holds,
    Undecided(String),
    /// site, explanation, member of the abstract input
    Violation(String, String, String),
}

pub fn subst_bit(b: &Bit, f: &dyn Fn(u32) -> Option<bool>) -> Bit {
    match b {
        Bit::F(l, c) => {
            let mut r = Lin::default();
            let mut c = *c;
            for a in l.atoms() {
                match f(a) {
                    Some(v) => c ^= v,
                    None => r = r.xor(&Lin::atom(a)),
                }
            }
            Bit::form(r, c)
        }
        b => b.clone(),
    }
}

fn subst_val(v: &Val, f: &dyn Fn(u32) -> Option<bool>, asg: &Asg) -> Val {
    match v {
        Val::B(b) => mk_bits(b.iter().map(|x| subst_bit(x, f)).collect()),
        Val::T(t) => {
            // used for conditions only: decided by the full assignment or kept
            if t.basis.iter().all(|l| l.atoms().iter().all(|a| f(*a).is_some())) {
                Val::C(asg.val(v).unwrap())
            } else {
                let fs: Vec<Bit> = t.basis.iter().map(|l| subst_bit(&Bit::form((**l).clone(), false), f)).collect();
                let bits = mk_bits(fs);
                match bits {
                    Val::C(i) => Val::C(t.vals[i as usize]),
                    bits => Dom::new().map1(&bits, |i| t.vals[i as usize], 64),
                }
            }
        }
        v => v.clone(),
    }
}

impl Case {
    /// restrict the abstract input to the members that agree with `asg` on all atoms not kept
    pub fn narrow(&self, asg: &Asg, keep: &dyn Fn(u32) -> bool) -> Case {
        let f = |a: u32| if keep(a) { None } else { Some(asg.get(a)) };
        let mut c = self.clone();
        c.cells = c.cells.iter().map(|b| subst_bit(b, &f)).collect();
        c.px = c.px.iter().map(|v| subst_val(v, &f, asg)).collect();
        c.table = c.table.iter().map(|(k, v)| (*k, subst_val(v, &f, asg))).collect();
        c.sched = c.sched.iter().map(|v| subst_val(v, &f, asg)).collect();
        c.expect = self
            .expect
            .iter()
            .map(|(k, e)| {
                (
                    subst_val(k, &f, asg),
                    match e {
                        Exp::Ok { meta, bytes } => Exp::Ok { meta: *meta, bytes: bytes.iter().map(|v| subst_val(v, &f, asg)).collect() },
                        Exp::Out(t) => Exp::Out(t.iter().map(|(t, b)| (*t, b.iter().map(|v| subst_val(v, &f, asg)).collect())).collect()),
                        Exp::ErrPrefix(c, b) => Exp::ErrPrefix(c.clone(), b.iter().map(|v| subst_val(v, &f, asg)).collect()),
                        e => e.clone(),
                    },
                )
            })
            .filter(|(k, _)| *k != Val::C(0))
            .collect();
        c
    }
    pub fn atoms(&self) -> Vec<u32> {
        let mut s = std::collections::BTreeSet::new();
        for v in self.sched.iter().chain(&self.px).chain(self.table.iter().map(|t| &t.1)) {
            let mut f = vec![];
            forms_of(v, &mut f);
            for l in f {
                s.extend(l.atoms());
            }
        }
        for c in &self.cells {
            if let Bit::F(l, _) = c {
                s.extend(l.atoms());
            }
        }
        s.into_iter().collect()
    }
    pub fn show(&self, asg: &Asg) -> String {
        let mut s = String::new();
        for (i, v) in self.px.iter().enumerate() {
            s += &format!("{:3}{}", asg.val(v).unwrap_or(0), if (i + 1) % self.n == 0 { "\n" } else { " " });
        }
        for y in 0..self.cells.len().checked_div(self.n).unwrap_or(0) {
            for x in 0..self.n {
                s.push(if asg.bit(&self.cells[y * self.n + x]) { '#' } else { '.' });
            }
            s.push('\n');
        }
        s
    }
}

fn same(g: &crate::guard::Guard, a: &Val, b: &Val) -> bool {
    if a == b || crate::guard::reduce_val(g, a) == crate::guard::reduce_val(g, b) {
        return true;
    }
    let mut d = Dom::new();
    d.max_dims = 16;
    let (a, b) = (crate::guard::reduce_val(g, a), crate::guard::reduce_val(g, b));
    if !matches!(a, Val::T(_)) && !matches!(b, Val::T(_)) && g.as_ref().map_or(true, |n| n.cons.is_empty()) {
        return false;
    }
    let e = d.binop(Op::Eq, &a, &b, 64, false);
    crate::guard::decide(&d, g, &e) == Some(true)
}

/// None: conforms. Some(false): cannot tell. Some(true): differs for the whole partition
fn conforms<'tcx>(g: &crate::guard::Guard, st: &State<'tcx>, o: &Outcome, e: &Exp) -> bool {
    match (e, o) {
        (Exp::Panic, Outcome::Panic { .. }) | (Exp::Any, Outcome::Panic { .. } | Outcome::Return(_)) | (Exp::NoPanic, Outcome::Return(_)) => return true,
        _ => {}
    }
    let Outcome::Return(code) = o else { return false };
    match e {
        Exp::ErrPrefix(codes, bytes) => {
            let w = st.written();
            matches!(crate::guard::reduce_val(g, code), Val::C(c) if codes.contains(&c))
                && st.outs(40).is_empty()
                && w.len() <= bytes.len()
                && w.iter().zip(bytes).all(|(a, b)| same(g, a, b))
        }
        Exp::Err(codes) => matches!(crate::guard::reduce_val(g, code), Val::C(c) if codes.contains(&c)) && st.written().is_empty(),
        Exp::ErrAny(codes) => matches!(crate::guard::reduce_val(g, code), Val::C(c) if codes.contains(&c)),
        Exp::Ok { meta, bytes } => {
            if crate::guard::reduce_val(g, code) != Val::C(0) {
                return false;
            }
            if let Some(m) = meta {
                for (t, want) in [10, 11, 12].iter().zip(m) {
                    let o = st.outs(*t);
                    if o.len() != 1 || o[0].len() != 1 || !same(g, &o[0][0], &Val::C(*want)) {
                        return false;
                    }
                }
            }
            let w = match st.outs(15).first() {
                Some(s) => s.clone(),
                None => st.written(),
            };
            w.len() == bytes.len() && w.iter().zip(bytes).all(|(a, b)| same(g, a, b))
        }
        Exp::Out(t) => {
            crate::guard::reduce_val(g, code) == Val::C(0)
                && t.iter().all(|(t, want)| {
                    let got: Vec<Val> = st.outs(*t).concat();
                    got.len() == want.len() && got.iter().zip(want).all(|(a, b)| same(g, a, b))
                })
        }
        Exp::Panic | Exp::Any | Exp::NoPanic => false,
    }
}

/// parts of the partition in which a value differs from the expected one
fn differing<'tcx>(g: &crate::guard::Guard, st: &State<'tcx>, e: &Exp) -> Vec<crate::guard::Guard> {
    let pairs: Vec<(Val, Val)> = match e {
        Exp::Ok { bytes, .. } | Exp::ErrPrefix(_, bytes) => {
            let w = match st.outs(15).first() {
                Some(s) => s.clone(),
                None => st.written(),
            };
            w.into_iter().zip(bytes.iter().cloned()).collect()
        }
        Exp::Out(t) => t.iter().flat_map(|(t, want)| st.outs(*t).concat().into_iter().zip(want.iter().cloned())).collect(),
        _ => return vec![],
    };
    let mut r = vec![];
    let mut dom = Dom::new();
    dom.max_dims = 16;
    for (a, b) in &pairs {
        if !same(g, a, b) {
            let (a, b) = (crate::guard::reduce_val(g, a), crate::guard::reduce_val(g, b));
            let ne = dom.binop(Op::Ne, &a, &b, 64, false);
            if let Some(h) = crate::guard::assume(&dom, g, &ne, "") {
                r.push(h);
            }
            if r.len() >= 6 {
                break;
            }
        }
    }
    r
}

struct Obs {
    late: bool,
    panic: bool,
    code: u64,
    meta: Vec<u64>,
    bytes: Vec<u64>,
    tags: Vec<(u64, Vec<u64>)>,
}

/// concrete observation of a partition member
fn observe<'tcx>(st: &State<'tcx>, o: &Outcome, e: &Exp, a: &Asg) -> Option<Obs> {
    let mut r = Obs { late: !st.outs(40).is_empty(), panic: false, code: 99, meta: vec![], bytes: vec![], tags: vec![] };
    let Outcome::Return(code) = o else {
        r.panic = true;
        return Some(r);
    };
    r.code = a.val(code)?;
    if let Exp::Out(t) = e {
        for (t, _) in t {
            let v: Option<Vec<u64>> = st.outs(*t).concat().iter().map(|v| a.val(v)).collect();
            r.tags.push((*t, v?));
        }
        return Some(r);
    }
    for t in [10, 11, 12] {
        for v in st.outs(t) {
            r.meta.push(a.val(&v[0])?);
        }
    }
    let w = match st.outs(15).first() {
        Some(s) => s.clone(),
        None => st.written(),
    };
    let b: Option<Vec<u64>> = w.iter().map(|v| a.val(v)).collect();
    r.bytes = b?;
    Some(r)
}

/// Some(None): as expected; Some(Some(text)): not
fn mismatch(e: &Exp, a: &Asg, o: &Obs) -> Option<Option<String>> {
    let vals = |v: &Vec<Val>| -> Option<Vec<u64>> { v.iter().map(|v| a.val(v)).collect() };
    let got = if o.panic { "a panic".to_string() } else { format!("{} with metadata {:?} and bytes {}", code_name(o.code), o.meta, show_bytes(&o.bytes)) };
    let no = |want: String| Some(Some(format!("expected {want}, derived {got}")));
    let names = |c: &[u64]| c.iter().map(|c| code_name(*c)).collect::<Vec<_>>().join("/");
    match e {
        Exp::Panic => if o.panic { Some(None) } else { no("refusal".into()) },
        Exp::Any => Some(None),
        Exp::NoPanic => if o.panic { no("a result or an error value".into()) } else { Some(None) },
        Exp::ErrPrefix(c, b) => {
            let b = vals(b)?;
            if o.late {
                return Some(Some("the writer was used again after it had failed".into()));
            }
            if !o.panic && c.contains(&o.code) && o.bytes.len() <= b.len() && o.bytes[..] == b[..o.bytes.len()] { Some(None) } else { no(format!("{} after a prefix of {}", names(c), show_bytes(&b))) }
        }
        Exp::Err(c) => {
            if !o.panic && c.contains(&o.code) && o.bytes.is_empty() { Some(None) } else { no(format!("{} and no output", names(c))) }
        }
        Exp::ErrAny(c) => {
            if !o.panic && c.contains(&o.code) { Some(None) } else { no(names(c)) }
        }
        Exp::Ok { meta, bytes } => {
            let b = vals(bytes)?;
            if !o.panic && o.code == 0 && meta.map_or(true, |m| o.meta == m.to_vec()) && o.bytes == b {
                Some(None)
            } else {
                no(format!("Ok with metadata {meta:?} and bytes {}", show_bytes(&b)))
            }
        }
        Exp::Out(t) => {
            if o.panic || o.code != 0 {
                return no("success".into());
            }
            for ((t, want), (_, got)) in t.iter().zip(&o.tags) {
                let want = vals(want)?;
                if want.len() != got.len() {
                    return Some(Some(format!("{}: expected {} values, derived {}", tag_name(*t), want.len(), got.len())));
                }
                for i in 0..want.len() {
                    if want[i] != got[i] {
                        return Some(Some(format!("{}[{i}]: expected {:#x}, derived {:#x}", tag_name(*t), want[i], got[i])));
                    }
                }
            }
            Some(None)
        }
    }
}

pub fn tag_name(t: u64) -> String {
    match t {
        10 => "version".into(),
        11 => "level".into(),
        12 => "mask".into(),
        13 => "length".into(),
        14 => "raw data".into(),
        20 => "grid size".into(),
        21 => "module".into(),
        22 => "version of size".into(),
        23 => "size of version".into(),
        30 => "width".into(),
        31 => "height".into(),
        32 => "pixel".into(),
        33 => "pixels overwritten".into(),
        34 => "byte of the class of the byte".into(),
        35 => "class equals its byte".into(),
        36 => "class read back from its byte is the class".into(),
        37 => "class equals that byte".into(),
        38 => "number of reported rows covering the pixel".into(),
        82 => "coordinate".into(),
        84 => "module".into(),
        51 => "region number looked up".into(),
        52 => "regions evicted".into(),
        53 => "region number recorded".into(),
        60 => "kind of region".into(),
        61 => "colour of the region".into(),
        62 => "source column of the region".into(),
        63 => "source row of the region".into(),
        64 => "size of the region".into(),
        t => format!("value {t}"),
    }
}

pub fn show_bytes(b: &[u64]) -> String {
    let s: String = b.iter().take(48).map(|x| format!("{x:02x}")).collect();
    if b.len() > 48 { format!("{s}.. ({} bytes)", b.len()) } else { s }
}

pub fn path_sites(g: &crate::guard::Guard) -> String {
    let mut v = vec![];
    let mut n = g.clone();
    while let Some(x) = n {
        if !v.contains(&x.what) {
            v.push(x.what.clone());
        }
        n = x.parent.clone();
        if v.len() >= 4 {
            break;
        }
    }
    v.join(", ")
}

const CODES: [&str; 10] = ["Ok", "IoError", "DataUnderflow", "DataOverflow", "UnknownDataType", "DataEcc", "FormatEcc", "InvalidVersion", "InvalidGridSize", "EncodingError"];
pub fn code_name(c: u64) -> String {
    CODES.get(c as usize).map_or(format!("outcome {c}"), |s| s.to_string())
}

impl<'tcx> Bench<'tcx> {
    /// one abstract run of a case; alarms are confirmed on a member of the partition
    pub fn attempt(&self, c: &Case, rep: &mut Report, confirm: bool) -> Verdict {
        if std::env::var("QRAI_NAMES").is_ok() {
            eprintln!("{} ({} steps so far)", c.name, self.e.stats.borrow().steps);
        }
        let outs = match self.run(c.entry, c.args.clone(), grid_input(c.n, c.cells.clone(), c.sched.clone(), c.px.clone(), c.ranged, c.table.clone())) {
            Err(e) => return Verdict::Undecided(format!("{}: {e}", c.name)),
            Ok(o) => o,
        };
        rep.count("partitions", outs.len() as u64);
        if outs.is_empty() {
            return Verdict::Undecided(format!("{}: no outcome", c.name));
        }
        let mut und = None;
        let mut rng = Rng(0x1234567);
        for (st, o) in &outs {
            if let Outcome::Unsupported { msg, at } = o {
                und = Some(format!("{}: {msg} at {at}", c.name));
                continue;
            }
            // every expectation whose condition is possible here must be met under that condition
            let fine = c.expect.iter().all(|(k, e)| match crate::guard::decide(&self.e.dom, &st.guard, k) {
                Some(false) => true,
                Some(true) => conforms(&st.guard, st, o, e),
                None => match crate::guard::assume(&self.e.dom, &st.guard, k, "") {
                    None => true,
                    Some(g) => conforms(&g, st, o, e),
                },
            });
            if fine {
                continue;
            }
            // candidate alarm: look for members
            let mut seen = false;
            let mut parts: Option<Vec<crate::guard::Guard>> = None;
            for t in 0..24 {
                // the partition, then its parts where a value differs
                let part = if t < 6 {
                    st.guard.clone()
                } else {
                    let parts = parts.get_or_insert_with(|| {
                        let under = |k: &Val| crate::guard::assume(&self.e.dom, &st.guard, k, "");
                        c.expect.iter().filter_map(|(k, e)| Some((under(k)?, e))).filter(|(g, e)| !conforms(g, st, o, e)).flat_map(|(g, e)| { let mut d = differing(&g, st, e); if d.is_empty() { d.push(g) } d }).collect()
                    });
                    if parts.is_empty() {
                        st.guard.clone()
                    } else {
                        parts[t % parts.len()].clone()
                    }
                };
                let smp = sample(&part, &mut rng, t == 0);
                let Some(a) = smp else { continue };
                let Some((_, e)) = c.expect.iter().find(|(k, _)| a.val(k).map_or(false, |v| v != 0)) else { continue };
                let Some(obs) = observe(st, o, e, &a) else { continue };
                let Some(bad) = mismatch(e, &a, &obs) else { continue };
                seen = true;
                let Some(what) = bad else { continue };
                if confirm {
                    let nc = c.narrow(&a, &|_| false);
                    rep.count("alarms_examined", 1);
                    if !matches!(self.attempt(&nc, rep, false), Verdict::Violation(..)) {
                        continue;
                    }
                }
                let (site, what) = match o {
                    Outcome::Panic { msg, at, func } => (format!("{at} ({func})"), format!("{what}: {msg}")),
                    _ => {
                        let s = path_sites(&st.guard);
                        (if s.is_empty() { c.entry.to_string() } else { format!("{} via {s}", c.entry) }, what)
                    }
                };
                return Verdict::Violation(site, format!("{}: {what}", c.name), c.show(&a));
            }
            if std::env::var("QRAI_DBG").is_ok() {
                eprintln!("guard {:?}\nouts {:?}", st.guard.as_ref().map(|n| (&n.cons, &n.eqs)), st.outs(15));
            }
            und = Some(format!("{}: outcome {o:?} not related to the expectation{}", c.name, if seen { "" } else { " (no member found)" }));
        }
        match und {
            Some(u) => Verdict::Undecided(u),
            None => Verdict::Holds,
        }
    }

    /// decide a case; if the full abstraction is too coarse or too costly, narrower ones are tried
    pub fn case(&self, c: &Case, rep: &mut Report) {
        let v = self.attempt(c, rep, true);
        let u = match v {
            Verdict::Holds => return rep.ok(),
            Verdict::Violation(s, w, m) => return rep.violation_with(&s, &w, &m),
            Verdict::Undecided(u) => u,
        };
        let atoms = c.atoms();
        let mut rng = Rng(0x9999 + c.n as u64);
        for t in 0..3u64 {
            let asg = Asg { fixed: Default::default(), salt: t * 77 + 5 };
            let keep: Vec<u32> = (0..4).filter_map(|_| atoms.get(rng.next() as usize % atoms.len().max(1)).copied()).collect();
            let nc = c.narrow(&asg, &|a| keep.contains(&a));
            rep.count("narrowed_runs", 1);
            match self.attempt(&nc, rep, true) {
                Verdict::Violation(s, w, m) => return rep.violation_with(&s, &w, &m),
                _ => {}
            }
        }
        rep.undecided(&u);
    }
}

pub fn run<'tcx>(tcx: TyCtxt<'tcx>, job: &Job, rep: &mut Report) {
    match job.prop.as_str() {
        "C01" => decode::c01(tcx, job, rep),
        "C02" => decode::c02(tcx, job, rep),
        "C03" => decode::c03(tcx, job, rep),
        "C04" => ecc::c04(tcx, job, rep),
        "C05" => ecc::c05(tcx, job, rep),
        "C06" => ecc::c06(tcx, job, rep),
        "C07" => payload::c07(tcx, job, rep),
        "C08" => payload::c08(tcx, job, rep),
        "C09" => payload::c09(tcx, job, rep),
        "C10" => payload::c10(tcx, job, rep),
        "C11" => payload::c11(tcx, job, rep),
        "C12" => ecc::c12(tcx, job, rep),
        "C13" => payload::c13(tcx, job, rep),
        "C14" => ecc::c14(tcx, job, rep),
        "C15" => nopanic::c15(tcx, job, rep),
        "C16" => small::c16(tcx, job, rep),
        "C17" => small::c17(tcx, job, rep),
        "C18" => small::c18(tcx, job, rep),
        "C19" => image::c19(tcx, job, rep),
        "C20" => image::c20(tcx, job, rep),
        "C21" => image::c21(tcx, job, rep),
        "C22" => geom::c22(tcx, job, rep),
        "C23" => geom::c23(tcx, job, rep),
        "C24" => geom::c24(tcx, job, rep),
        "C25" => geom::c25(tcx, job, rep),
        "C26" => image::c26(tcx, job, rep),
        "C27" => detect::c27(tcx, job, rep),
        "C28" => lint::c28(tcx, job, rep),
        "C30" => detect::c30(tcx, job, rep),
        "C33" => image::c33(tcx, job, rep),
        "C34" => image::c34(tcx, job, rep),
        "C35" => robust::c35(tcx, job, rep),
        "C36" => robust::c36(tcx, job, rep),
        "C37" => detect::c37(tcx, job, rep),
        "C38" => robust::c38(tcx, job, rep),
        "C39" => robust::c39(tcx, job, rep),
        "C40" => robust::c40(tcx, job, rep),
        _ => rep.undecided("no such property"),
    }
}
