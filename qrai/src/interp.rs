//! Forward abstract interpretation of lowered MIR with trace partitioning.
use rustc_middle::ty::Instance;
use crate::guard::{self, Guard};
use crate::lower::*;
use crate::mem::*;
use crate::val::*;
use rustc_middle::ty::Ty;
use rustc_span::Span;
use rustc_data_structures::fx::{FxHashMap as HashMap, FxHashSet as HashSet};
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Slot {
    N,
    V(Val),
    M(Rc<Store>),
}

#[derive(Clone, Debug)]
pub struct Frame<'tcx> {
    pub func: Rc<Func<'tcx>>,
    pub bb: u32,
    pub iters: Vec<u32>,
    pub locals: Vec<Slot>,
    /// where the result goes in the caller frame
    pub dest: Option<(Loc, TI)>,
    pub ret: Option<u32>,
    pub memo: Option<(Vec<u64>, usize, u32)>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Loc {
    pub base: LB,
    pub k: i64,
    pub s: Option<Val>,
    pub meta: Option<Val>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum LB {
    Slot(u16, u16),
    Mem(Base),
    /// dangling/integer address (only valid for zero-sized accesses)
    Int,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Write(Vec<Val>),
    Out(u64, Vec<Val>),
}

#[derive(Debug)]
pub struct EvNode {
    pub ev: Ev,
    pub prev: Option<Rc<EvNode>>,
    pub n: u32,
}

#[derive(Clone)]
pub struct State<'tcx> {
    pub frames: Vec<Rc<Frame<'tcx>>>,
    pub heap: Vec<Option<Rc<Store>>>,
    pub guard: Guard,
    pub ev: Option<Rc<EvNode>>,
    pub nhooks: u32,
    pub forks: u32,
}

impl<'tcx> State<'tcx> {
    pub fn events(&self) -> Vec<Ev> {
        let mut v = vec![];
        let mut p = self.ev.clone();
        while let Some(n) = p {
            v.push(n.ev.clone());
            p = n.prev.clone();
        }
        v.reverse();
        v
    }
    pub fn push_ev(&mut self, e: Ev) {
        let n = self.ev.as_ref().map_or(0, |x| x.n) + 1;
        self.ev = Some(Rc::new(EvNode { ev: e, prev: self.ev.take(), n }));
    }
    pub fn outs(&self, tag: u64) -> Vec<Vec<Val>> {
        self.events()
            .into_iter()
            .filter_map(|e| match e {
                Ev::Out(t, v) if t == tag => Some(v),
                _ => None,
            })
            .collect()
    }
    pub fn written(&self) -> Vec<Val> {
        let mut r = vec![];
        for e in self.events() {
            if let Ev::Write(v) = e {
                r.extend(v)
            }
        }
        r
    }
}

#[derive(Debug, Clone)]
pub enum Outcome {
    Return(Val),
    Panic { msg: String, at: String, func: String },
    Unsupported { msg: String, at: String },
}

#[derive(Debug)]
pub enum Halt {
    Panic(String),
    Unsup(String),
}
pub type R<T> = Result<T, Halt>;
pub fn unsup<T>(m: impl Into<String>) -> R<T> {
    Err(Halt::Unsup(m.into()))
}

/// answers of the environment of the analysed code
pub trait Client<'tcx> {
    fn input(&mut self, _eng: &Engine<'tcx>, _st: &mut State<'tcx>, tag: u64, a: Val, b: Val) -> Result<Val, String> {
        Err(format!("input({tag},{a:?},{b:?}) not provided"))
    }
    fn done(&mut self, eng: &Engine<'tcx>, st: State<'tcx>, out: Outcome);
    /// calls to functions that the client wants to model; None = analyse the body
    fn model(
        &mut self,
        _eng: &Engine<'tcx>,
        _st: &mut State<'tcx>,
        _f: &Func<'tcx>,
        _args: &[Arg<'tcx>],
    ) -> Option<Result<Vec<(u32, u8, Val)>, Halt>> {
        None
    }
}

#[derive(Clone, Debug)]
pub struct Arg<'tcx> {
    pub ty: Ty<'tcx>,
    pub ti: TI,
    pub vals: Vec<(u32, u8, Val)>,
}
impl<'tcx> Arg<'tcx> {
    pub fn at(&self, o: u32) -> Val {
        self.vals.iter().find(|v| v.0 == o).map(|v| v.2.clone()).unwrap_or(Val::Undef)
    }
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub tab_merge: usize,
    pub lossy: bool,
    /// with `lossy`: keep exact gated values where the condition allows it
    pub exact_first: bool,
    /// with `lossy`: differing boolean constants keep partitions apart
    pub flags: bool,
    /// with `lossy`: partitions that know this many linear facts more than a common ancestor stay apart (0: off)
    pub keep_rank: usize,
    /// keep all partitions apart
    pub no_join: bool,
    pub max_steps: u64,
    pub max_states: usize,
    pub no_events: bool,
    pub model_lru: bool,
    /// calls to functions of the crate with these last path segments go to these functions instead
    pub redirect: Vec<(String, String)>,
    pub deadline: Option<std::time::Instant>,
    /// wall time of one run
    pub max_time: std::time::Duration,
}
impl Default for Cfg {
    fn default() -> Self {
        Cfg { tab_merge: 12, lossy: false, exact_first: false, flags: false, keep_rank: 0, no_join: false, max_steps: 400_000_000, max_states: 20000, no_events: false, model_lru: true, redirect: vec![], deadline: None, max_time: std::time::Duration::from_secs(100_000) }
    }
}

pub struct Engine<'tcx> {
    pub lo: Lower<'tcx>,
    pub dom: Dom,
    pub cfg: Cfg,
    pub memo: std::cell::RefCell<HashMap<(u32, Vec<u64>), u64>>,
    pub gtabs: std::cell::RefCell<HashMap<(Base, i64, u32), Vec<Option<u64>>>>,
    pub paths: std::cell::RefCell<Vec<Option<Rc<str>>>>,
    pub stats: std::cell::RefCell<Stats>,
    pub trace: bool,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub steps: u64,
    pub blocks: u64,
    pub forks: u64,
    pub merges: u64,
    pub lossy: u64,
    pub partitions: u64,
    pub peak: usize,
    pub funcs: HashSet<u32>,
    pub sites: HashSet<(u32, u32)>,
    pub asserts: u64,
}

pub enum Step<'tcx> {
    Next,
    Fork(Vec<State<'tcx>>),
    Done(Outcome),
}

impl<'tcx> Engine<'tcx> {
    pub fn new(lo: Lower<'tcx>) -> Self {
        Engine {
            lo,
            dom: Dom::new(),
            cfg: Cfg::default(),
            memo: Default::default(),
            paths: Default::default(),
            gtabs: Default::default(),
            stats: Default::default(),
            trace: std::env::var("QRAI_TRACE").is_ok(),
        }
    }

    pub fn span_str(&self, sp: Span) -> String {
        let sm = self.lo.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let l = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", l.file.name.prefer_local_unconditionally());
        format!("{}:{}", f, l.line)
    }

    /// innermost crate-local position of a state
    pub fn where_(&self, st: &State<'tcx>) -> (String, String) {
        for f in st.frames.iter().rev() {
            if f.func.is_local {
                let b = &f.func.blocks[f.bb as usize];
                return (self.span_str(b.span), f.func.path.clone());
            }
        }
        ("?".into(), "?".into())
    }

    pub fn backtrace(&self, st: &State<'tcx>) -> String {
        let mut s = String::new();
        for f in st.frames.iter().rev().take(12) {
            let b = &f.func.blocks[f.bb as usize];
            s += &format!("  {} bb{} {}\n", f.func.path, f.bb, self.span_str(b.span));
        }
        s
    }

    // ------------------------------------------------------------ memory
    fn store<'a>(&self, st: &'a State<'tcx>, b: Base) -> R<&'a Rc<Store>> {
        match b {
            Base::Local(f, l) => match st.frames.get(f as usize).and_then(|x| x.locals.get(l as usize)) {
                Some(Slot::M(s)) => Ok(s),
                x => unsup(format!("access to local {f}.{l}: {x:?}")),
            },
            Base::Heap(h) => match st.heap.get(h as usize) {
                Some(Some(s)) => Ok(s),
                _ => unsup("access to freed heap object"),
            },
            _ => unsup(format!("store of {b:?}")),
        }
    }
    pub fn ensure(&self, st: &mut State<'tcx>, f: u16, l: u16) {
        let fr = &st.frames[f as usize];
        if let Slot::N = fr.locals[l as usize] {
            let size = fr.func.locals[l as usize].0.size;
            let fr = Rc::make_mut(&mut st.frames[f as usize]);
            fr.locals[l as usize] = Slot::M(Rc::new(Store::new(size)));
        }
    }
    pub fn store_mut<'a>(&self, st: &'a mut State<'tcx>, b: Base) -> R<&'a mut Store> {
        match b {
            Base::Local(f, l) => {
                if st.frames.len() <= f as usize {
                    return unsup("dangling local");
                }
                self.ensure(st, f, l);
                match &mut Rc::make_mut(&mut st.frames[f as usize]).locals[l as usize] {
                    Slot::M(s) => Ok(Rc::make_mut(s)),
                    _ => unsup("store to scalar slot"),
                }
            }
            Base::Heap(h) => match st.heap.get_mut(h as usize) {
                Some(Some(s)) => Ok(Rc::make_mut(s)),
                _ => unsup("access to freed heap object"),
            },
            _ => unsup(format!("write to {b:?}")),
        }
    }

    pub fn size_of_base(&self, st: &State<'tcx>, b: Base) -> Option<u32> {
        match b {
            Base::Global(g) => Some(self.lo.globals.borrow()[g as usize].bytes.len() as u32),
            Base::Local(f, l) => st.frames.get(f as usize).map(|x| x.func.locals[l as usize].0.size),
            Base::Heap(h) => st.heap.get(h as usize).and_then(|x| x.as_ref()).map(|s| s.size),
            _ => None,
        }
    }

    pub fn read(&self, st: &State<'tcx>, b: Base, off: i64, size: u32) -> R<Val> {
        let Some(bs) = self.size_of_base(st, b) else { return self.read_vt(st, b, off, size) };
        if off < 0 || off + size as i64 > bs as i64 {
            return unsup(format!("out-of-bounds read {b:?}+{off} size {size} of {bs}"));
        }
        match b {
            Base::Global(g) => {
                let g = self.lo.globals.borrow()[g as usize].clone();
                if size == 8 {
                    if let Some((b, o)) = g.rel.get(&(off as u32)) {
                        return Ok(Val::Ptr(*b, *o));
                    }
                }
                let mut v = 0u64;
                for i in 0..size as usize {
                    v |= (g.bytes[off as usize + i] as u64) << (8 * i);
                }
                Ok(Val::C(v))
            }
            Base::Local(f, l) => match &st.frames[f as usize].locals[l as usize] {
                Slot::N => Ok(Val::Undef),
                Slot::M(s) => Ok(s.read(&self.dom, off as u32, size)),
                Slot::V(_) => unsup("memory read of scalar slot"),
            },
            _ => Ok(self.store(st, b)?.read(&self.dom, off as u32, size)),
        }
    }

    fn read_vt(&self, _st: &State<'tcx>, b: Base, off: i64, _size: u32) -> R<Val> {
        if let Base::VT(v) = b {
            let (ty, _) = self.lo.vts.borrow()[v as usize];
            let l = self.lo.layout(ty);
            return match off {
                8 => Ok(Val::C(l.size.bytes())),
                16 => Ok(Val::C(l.align.bytes())),
                _ => unsup("vtable read"),
            };
        }
        unsup(format!("read of {b:?}+{off}"))
    }

    pub fn slice(&self, st: &State<'tcx>, b: Base, off: i64, len: u32) -> R<Vec<(u32, u8, Val)>> {
        if len == 0 {
            return Ok(vec![]);
        }
        let Some(bs) = self.size_of_base(st, b) else { return unsup(format!("slice of {b:?}")) };
        if off < 0 || off + len as i64 > bs as i64 {
            return unsup(format!("out-of-bounds copy {b:?}+{off} len {len} of {bs}"));
        }
        match b {
            Base::Global(g) => {
                let g = self.lo.globals.borrow()[g as usize].clone();
                let mut out = vec![];
                let mut i = 0;
                while i < len {
                    if i + 8 <= len {
                        if let Some((b, o)) = g.rel.get(&(off as u32 + i)) {
                            out.push((i, 8, Val::Ptr(*b, *o)));
                            i += 8;
                            continue;
                        }
                    }
                    let p = off as usize + i as usize;
                    // group aligned words when the destination will read words
                    if i % 8 == 0 && i + 8 <= len && len % 8 == 0 && !(1..8).any(|k| g.rel.contains_key(&(p as u32 + k))) && len <= 4096 && len >= 8 && bs > 0 && len as usize != 256 {
                        let v = u64::from_le_bytes(g.bytes[p..p + 8].try_into().unwrap());
                        out.push((i, 8, Val::C(v)));
                        i += 8;
                        continue;
                    }
                    out.push((i, 1, Val::C(g.bytes[p] as u64)));
                    i += 1;
                }
                Ok(out)
            }
            Base::Local(f, l) => match &st.frames[f as usize].locals[l as usize] {
                Slot::N => Ok(vec![]),
                Slot::M(s) => Ok(s.slice(&self.dom, off as u32, len)),
                Slot::V(_) => unsup("slice of scalar slot"),
            },
            _ => Ok(self.store(st, b)?.slice(&self.dom, off as u32, len)),
        }
    }

    pub fn write(&self, st: &mut State<'tcx>, b: Base, off: i64, size: u32, v: Val) -> R<()> {
        let Some(bs) = self.size_of_base(st, b) else { return unsup(format!("write to {b:?}")) };
        if off < 0 || off + size as i64 > bs as i64 {
            return unsup(format!("out-of-bounds write {b:?}+{off} size {size} of {bs}"));
        }
        if !self.cfg.lossy && self.dom.fresh_bytes == false {
            // keep
        }
        let d = &self.dom;
        // SAFETY of borrow: dom is disjoint from state
        self.store_mut(st, b)?.write(d, off as u32, size, v);
        Ok(())
    }

    pub fn put_slice(&self, st: &mut State<'tcx>, b: Base, off: i64, len: u32, v: Vec<(u32, u8, Val)>) -> R<()> {
        if len == 0 {
            return Ok(());
        }
        let Some(bs) = self.size_of_base(st, b) else { return unsup(format!("write to {b:?}")) };
        if off < 0 || off + len as i64 > bs as i64 {
            return unsup(format!("out-of-bounds write {b:?}+{off} len {len} of {bs}"));
        }
        self.store_mut(st, b)?.put_slice(&self.dom, off as u32, len, v);
        Ok(())
    }

    // ------------------------------------------------------------ places
    fn add_off(&self, l: &mut Loc, v: Val) {
        match v {
            Val::C(c) => l.k = l.k.wrapping_add(c as i64),
            v => {
                l.s = Some(match l.s.take() {
                    None => v,
                    Some(o) => self.dom.binop(Op::Add, &o, &v, 64, false),
                })
            }
        }
    }

    pub fn ptr_loc(&self, v: &Val) -> R<Loc> {
        Ok(match v {
            Val::Ptr(b, o) => Loc { base: LB::Mem(*b), k: *o, s: None, meta: None },
            Val::SPtr(p) => Loc { base: LB::Mem(p.0), k: 0, s: Some(p.1.clone()), meta: None },
            Val::C(_) => Loc { base: LB::Int, k: 0, s: None, meta: None },
            v => return unsup(format!("deref of {v:?}")),
        })
    }

    pub fn place(&self, st: &State<'tcx>, p: &PlaceL<'tcx>) -> R<Loc> {
        let fi = st.frames.len() - 1;
        let fr = &st.frames[fi];
        let mut l = if fr.func.locals[p.local as usize].1 {
            Loc { base: LB::Slot(fi as u16, p.local), k: 0, s: None, meta: None }
        } else {
            Loc { base: LB::Mem(Base::Local(fi as u16, p.local)), k: 0, s: None, meta: None }
        };
        for e in &p.proj {
            match e {
                PL::Off(o) => l.k += *o as i64,
                PL::Deref { fat } => {
                    let p = self.load(st, &l, 8)?;
                    let meta = if *fat {
                        let mut m = l.clone();
                        m.k += 8;
                        Some(self.load(st, &m, 8)?)
                    } else {
                        None
                    };
                    l = self.ptr_loc(&p)?;
                    l.meta = meta;
                }
                PL::Index { local, stride } => {
                    let i = match &fr.locals[*local as usize] {
                        Slot::V(v) => v.clone(),
                        Slot::M(_) => self.read(st, Base::Local(fi as u16, *local), 0, 8)?,
                        Slot::N => return unsup("index uninit"),
                    };
                    let o = self.dom.binop(Op::Mul, &i, &Val::C(*stride as u64), 64, false);
                    if let Val::Undef = o {
                        return unsup("undefined index");
                    }
                    self.add_off(&mut l, o);
                    l.meta = None;
                }
                PL::FromEnd { off, stride } => {
                    let Some(Val::C(n)) = l.meta else { return unsup("from-end on unknown length") };
                    l.k += (n as i64 - *off as i64) * *stride as i64;
                    l.meta = None;
                }
                PL::Sub { from, to, stride, arr_len, from_end } => {
                    l.k += *from as i64 * *stride as i64;
                    if arr_len.is_none() {
                        let Some(Val::C(n)) = l.meta else { return unsup("subslice on unknown length") };
                        let e = if *from_end { n - *to as u64 } else { *to as u64 };
                        l.meta = Some(Val::C(e - *from as u64));
                    }
                }
            }
        }
        Ok(l)
    }

    /// address of a location
    pub fn addr(&self, l: &Loc) -> R<Val> {
        Ok(match (l.base, &l.s) {
            (LB::Mem(b), None) => Val::Ptr(b, l.k),
            (LB::Mem(b), Some(s)) => {
                Val::SPtr(Rc::new((b, self.dom.binop(Op::Add, s, &Val::C(l.k as u64), 64, false))))
            }
            (LB::Int, _) => Val::C(if l.k == 0 { 8 } else { l.k as u64 }),
            (LB::Slot(..), _) => return unsup("address of scalar slot"),
        })
    }

    pub fn load(&self, st: &State<'tcx>, l: &Loc, size: u32) -> R<Val> {
        match l.base {
            LB::Slot(f, n) => {
                let fr = &st.frames[f as usize];
                let v = match &fr.locals[n as usize] {
                    Slot::V(v) => v.clone(),
                    _ => Val::Undef,
                };
                if l.k == 0 && fr.func.locals[n as usize].0.size == size {
                    Ok(v)
                } else {
                    let b: Vec<Val> = (0..size).map(|i| extract_byte(&self.dom, &v, l.k as u32 + i)).collect();
                    Ok(concat_bytes(&self.dom, &b))
                }
            }
            LB::Mem(b) => match &l.s {
                None => self.read(st, b, l.k, size),
                Some(s) => self.load_sym(st, b, s, l.k, size),
            },
            LB::Int => unsup("load through integer address"),
        }
    }

    pub fn load_sym(&self, st: &State<'tcx>, b: Base, s: &Val, k: i64, size: u32) -> R<Val> {
        let s = guard::reduce_val(&st.guard, s);
        if let Val::C(c) = s {
            return self.read(st, b, k.wrapping_add(c as i64), size);
        }
        let Some((t, ok)) = guard::feasible(&self.dom, &st.guard, &s) else {
            // unknown index: join of all cells (value unknown)
            return match s {
                Val::R(..) | Val::Top | Val::B(_) => {
                    let bs = self.size_of_base(st, b).unwrap_or(0);
                    let (lo, hi) = urange(&s, 64);
                    if k >= 0 && (k as u64).checked_add(hi).map_or(false, |e| e + size as u64 <= bs as u64) {
                        if hi - lo <= 4096 {
                            // interval hull
                            let mut l = u64::MAX;
                            let mut h = 0;
                            let mut o = lo;
                            while o <= hi {
                                let v = self.read(st, b, k + o as i64, size)?;
                                let (a, c) = urange(&v, size * 8);
                                if matches!(v, Val::Undef | Val::Ptr(..)) {
                                    return unsup("symbolic load of mixed cells");
                                }
                                l = l.min(a);
                                h = h.max(c);
                                o += size as u64;
                            }
                            return Ok(self.dom.rng(l, h, size * 8));
                        }
                        Ok(self.dom.top(size * 8))
                    } else {
                        unsup(format!("load at unbounded offset {s:?}"))
                    }
                }
                _ => unsup(format!("load at abstract offset {s:?}")),
            };
        };
        // immutable table indexed by a value: entries are remembered
        if let Base::Global(_) = b {
            let mut gt = self.gtabs.borrow_mut();
            let tab = gt.entry((b, k, size)).or_default();
            let mut vals = vec![0u64; ok.len()];
            let mut fine = true;
            for i in 0..ok.len() {
                if !ok[i] {
                    continue;
                }
                let o = t.vals[i] as usize;
                if o >= 1 << 16 {
                    fine = false;
                    break;
                }
                if o >= tab.len() {
                    tab.resize(o + 1, None);
                }
                match tab[o] {
                    Some(c) => vals[i] = c,
                    None => match self.read(st, b, k.wrapping_add(o as i64), size)? {
                        Val::C(c) => {
                            tab[o] = Some(c);
                            vals[i] = c;
                        }
                        _ => {
                            fine = false;
                            break;
                        }
                    },
                }
            }
            if fine {
                return Ok(norm_tab(Tab { basis: t.basis.clone(), vals }));
            }
        }
        let mut cache: HashMap<u64, Val> = HashMap::default();
        let mut all_c = true;
        let mut vals = vec![0u64; ok.len()];
        for i in 0..ok.len() {
            if !ok[i] {
                continue;
            }
            let o = t.vals[i];
            let v = match cache.get(&o) {
                Some(v) => v.clone(),
                None => {
                    let v = self.read(st, b, k.wrapping_add(o as i64), size)?;
                    cache.insert(o, v.clone());
                    v
                }
            };
            match v {
                Val::C(c) => vals[i] = c,
                _ => all_c = false,
            }
        }
        if all_c {
            return Ok(norm_tab(Tab { basis: t.basis.clone(), vals }));
        }
        let off = Val::T(Rc::new(t.clone()));
        let mut vs: Vec<&Val> = vec![&off];
        for v in cache.values() {
            if matches!(v, Val::Ptr(..) | Val::SPtr(..) | Val::Undef) {
                return unsup("symbolic load of pointers/undef");
            }
            vs.push(v);
        }
        if let Some(basis) = common_basis(&vs, self.dom.max_dims) {
            let to = val_over(&off, &basis).unwrap();
            let mut tabs: HashMap<u64, Tab> = HashMap::default();
            for (o, v) in &cache {
                tabs.insert(*o, val_over(v, &basis).unwrap());
            }
            let vals = (0..to.vals.len()).map(|i| tabs.get(&to.vals[i]).map_or(0, |t| t.vals[i])).collect();
            return Ok(norm_tab(Tab { basis, vals }));
        }
        let (mut l, mut h) = (u64::MAX, 0);
        for v in cache.values() {
            let (a, c) = urange(v, size * 8);
            l = l.min(a);
            h = h.max(c);
        }
        Ok(self.dom.rng(l, h, size * 8))
    }

    pub fn store_val(&self, st: &mut State<'tcx>, l: &Loc, size: u32, v: Val) -> R<()> {
        match l.base {
            LB::Slot(f, n) => {
                let full = st.frames[f as usize].func.locals[n as usize].0.size;
                if l.k == 0 && full == size {
                    Rc::make_mut(&mut st.frames[f as usize]).locals[n as usize] = Slot::V(v);
                    Ok(())
                } else {
                    unsup("partial store to scalar slot")
                }
            }
            LB::Mem(b) => match &l.s {
                None => self.write(st, b, l.k, size, v),
                Some(s) => self.store_sym(st, b, s, l.k, size, v),
            },
            LB::Int => unsup("store through integer address"),
        }
    }

    fn store_sym(&self, st: &mut State<'tcx>, b: Base, s: &Val, k: i64, size: u32, v: Val) -> R<()> {
        let s = guard::reduce_val(&st.guard, s);
        if let Val::C(c) = s {
            return self.write(st, b, k.wrapping_add(c as i64), size, v);
        }
        let offs: Vec<u64> = match guard::values(&self.dom, &st.guard, &s, 4096) {
            Some(o) => o,
            None => {
                let (lo, hi) = urange(&s, 64);
                if hi - lo > 1 << 16 {
                    return unsup("store at unbounded offset");
                }
                (lo..=hi).step_by(size as usize).collect()
            }
        };
        for o in offs {
            let old = self.read(st, b, k.wrapping_add(o as i64), size)?;
            let c = self.dom.binop(Op::Eq, &s, &Val::C(o), 64, false);
            let nv = match self.dom.ite(&c, &v, &old, self.dom.max_dims) {
                Some(x) => x,
                None => self.join_val(&old, &v, size),
            };
            self.write(st, b, k.wrapping_add(o as i64), size, nv)?;
        }
        Ok(())
    }

    pub fn join_val(&self, a: &Val, b: &Val, size: u32) -> Val {
        if a == b {
            return a.clone();
        }
        if matches!(a, Val::Ptr(..) | Val::SPtr(..)) || matches!(b, Val::Ptr(..) | Val::SPtr(..)) {
            return Val::Top;
        }
        let ((al, ah), (bl, bh)) = (urange(a, size * 8), urange(b, size * 8));
        self.dom.rng(al.min(bl), ah.max(bh), size * 8)
    }

    // ------------------------------------------------------------ operands
    fn const_vals(&self, st: &State<'tcx>, c: &ConstL, ti: TI) -> R<Vec<(u32, u8, Val)>> {
        Ok(match c {
            ConstL::Scalar(v) => vec![(0, ti.size as u8, v.clone())],
            ConstL::Pair(a, b) => vec![(0, 8, a.clone()), (8, 8, b.clone())],
            ConstL::Zst => vec![],
            ConstL::Mem(b, o) => self.slice(st, *b, *o as i64, ti.size)?,
        })
    }

    /// scalar value of an operand
    pub fn sval(&self, st: &State<'tcx>, o: &OperL<'tcx>) -> R<Val> {
        match &o.k {
            OpK::Const(ConstL::Scalar(v)) => Ok(v.clone()),
            OpK::Const(ConstL::Mem(b, off)) => self.read(st, *b, *off as i64, o.ti.size),
            OpK::Const(ConstL::Zst) => Ok(Val::C(0)),
            OpK::Const(ConstL::Pair(a, _)) => Ok(a.clone()),
            OpK::Place(p) => {
                if p.proj.is_empty() {
                    let fr = st.frames.last().unwrap();
                    if let Slot::V(v) = &fr.locals[p.local as usize] {
                        return Ok(v.clone());
                    }
                }
                let l = self.place(st, p)?;
                self.load(st, &l, o.ti.size)
            }
        }
    }

    /// second word of a wide pointer operand
    pub fn smeta(&self, st: &State<'tcx>, o: &OperL<'tcx>) -> R<Val> {
        match &o.k {
            OpK::Const(ConstL::Pair(_, b)) => Ok(b.clone()),
            OpK::Const(ConstL::Mem(b, off)) => self.read(st, *b, *off as i64 + 8, 8),
            OpK::Place(p) => {
                let mut l = self.place(st, p)?;
                l.k += 8;
                self.load(st, &l, 8)
            }
            _ => unsup("meta of const"),
        }
    }

    pub fn first_word(&self, st: &State<'tcx>, o: &OperL<'tcx>) -> R<Val> {
        match &o.k {
            OpK::Place(p) => {
                let l = self.place(st, p)?;
                self.load(st, &l, 8)
            }
            _ => self.sval(st, o),
        }
    }

    /// all cells of an operand
    pub fn ovals(&self, st: &State<'tcx>, o: &OperL<'tcx>) -> R<Vec<(u32, u8, Val)>> {
        if o.ti.size == 0 {
            return Ok(vec![]);
        }
        match &o.k {
            OpK::Const(c) => self.const_vals(st, c, o.ti),
            OpK::Place(p) => {
                if o.ti.scalar.is_some() {
                    return Ok(vec![(0, o.ti.size as u8, self.sval(st, o)?)]);
                }
                let l = self.place(st, p)?;
                self.loc_vals(st, &l, o.ti)
            }
        }
    }

    pub fn loc_vals(&self, st: &State<'tcx>, l: &Loc, ti: TI) -> R<Vec<(u32, u8, Val)>> {
        match (l.base, &l.s) {
            (LB::Mem(b), None) => self.slice(st, b, l.k, ti.size),
            (LB::Mem(b), Some(s)) => {
                let r = guard::reduce_val(&st.guard, s);
                if let Val::C(c) = r {
                    return self.slice(st, b, l.k + c as i64, ti.size);
                }
                // structure copied cell by cell; use the shape of one feasible instance
                let offs = guard::values(&self.dom, &st.guard, &r, 4096);
                let Some(offs) = offs else { return unsup("aggregate load at abstract offset") };
                let shape = self.slice(st, b, l.k + offs[0] as i64, ti.size)?;
                let mut out = vec![];
                for (o, sz, _) in shape {
                    out.push((o, sz, self.load_sym(st, b, &r, l.k + o as i64, sz as u32)?));
                }
                Ok(out)
            }
            (LB::Slot(..), _) => Ok(vec![(0, ti.size as u8, self.load(st, l, ti.size)?)]),
            _ => unsup("aggregate load through integer"),
        }
    }

    pub fn put(&self, st: &mut State<'tcx>, l: &Loc, ti: TI, vals: Vec<(u32, u8, Val)>) -> R<()> {
        if ti.size == 0 {
            return Ok(());
        }
        match l.base {
            LB::Slot(..) => {
                let v = if vals.len() == 1 && vals[0].0 == 0 && vals[0].1 as u32 == ti.size {
                    vals.into_iter().next().unwrap().2
                } else {
                    let mut s = Store::new(ti.size);
                    s.put_slice(&self.dom, 0, ti.size, vals);
                    s.read(&self.dom, 0, ti.size)
                };
                self.store_val(st, l, ti.size, v)
            }
            LB::Mem(b) => match &l.s {
                None => self.put_slice(st, b, l.k, ti.size, vals),
                Some(_) => {
                    for (o, s, v) in vals {
                        let mut m = l.clone();
                        m.k += o as i64;
                        self.store_val(st, &m, s as u32, v)?;
                    }
                    Ok(())
                }
            },
            LB::Int => unsup("store through integer"),
        }
    }

    // ------------------------------------------------------------ statements
    fn assign(&self, st: &mut State<'tcx>, p: &PlaceL<'tcx>, r: &RvL<'tcx>) -> R<()> {
        let sc = p.ti.scalar.is_some();
        let v: Val = match r {
            RvL::Use(o) => {
                if sc {
                    self.sval(st, o)?
                } else {
                    let v = self.ovals(st, o)?;
                    let l = self.place(st, p)?;
                    return self.put(st, &l, p.ti, v);
                }
            }
            RvL::Bin { op, a, b, bits, signed, kind } => {
                let (x, y) = (self.sval(st, a)?, self.sval(st, b)?);
                self.bin(*op, &x, &y, *bits, *signed, *kind, b.ti.size * 8)?
            }
            RvL::BinO { op, oop, a, b, bits, signed, foff } => {
                let (x, y) = (self.sval(st, a)?, self.sval(st, b)?);
                let v = self.dom.binop(*op, &x, &y, *bits, *signed);
                let o = self.dom.binop(*oop, &x, &y, *bits, *signed);
                let l = self.place(st, p)?;
                let sz = bits / 8;
                return self.put(st, &l, p.ti, vec![(0, sz as u8, v), (*foff, 1, o)]);
            }
            RvL::Offset { a, b, stride } => {
                let (x, y) = (self.sval(st, a)?, self.sval(st, b)?);
                self.ptr_off(st, &x, &y, *stride)?
            }
            RvL::Not(o, bits) => {
                let v = self.sval(st, o)?;
                self.dom.not(&v, *bits)
            }
            RvL::Neg(o, bits, k) => {
                let v = self.sval(st, o)?;
                match k {
                    SK::Float => self.fneg(&v, *bits),
                    _ => self.dom.binop(Op::Sub, &Val::C(0), &v, *bits, true),
                }
            }
            RvL::Meta(o) => {
                if p.ti.size == 0 {
                    return Ok(());
                }
                self.smeta(st, o)?
            }
            RvL::Ref(pl) => {
                let l = self.place(st, pl)?;
                if let LB::Mem(Base::Local(f, n)) = l.base {
                    self.ensure(st, f, n);
                }
                let a = self.addr(&l)?;
                if p.ti.fat {
                    let Some(m) = l.meta else { return unsup("wide ref without meta") };
                    let d = self.place(st, p)?;
                    return self.put(st, &d, p.ti, vec![(0, 8, a), (8, 8, m)]);
                }
                a
            }
            RvL::Discr(pl, d) => {
                let l = self.place(st, pl)?;
                self.discr(st, &l, d)?
            }
            RvL::Cast(c, o) => match c {
                CastL::Int { from, to, signed } => {
                    let v = self.sval(st, o)?;
                    self.dom.int_cast(&v, *from, *to, *signed)
                }
                CastL::IntToFloat { from, to, signed } => {
                    let v = self.sval(st, o)?;
                    self.int_to_float(&v, *from, *to, *signed)
                }
                CastL::FloatToInt { from, to, signed } => {
                    let v = self.sval(st, o)?;
                    self.float_to_int(&v, *from, *to, *signed)
                }
                CastL::FloatToFloat { from, to } => match self.sval(st, o)? {
                    Val::C(c) => {
                        if from == to {
                            Val::C(c)
                        } else if *to == 64 {
                            Val::C((f32::from_bits(c as u32) as f64).to_bits())
                        } else {
                            Val::C((f64::from_bits(c) as f32).to_bits() as u64)
                        }
                    }
                    Val::F(f) => Val::F(f),
                    _ => Val::Top,
                },
                CastL::Bytes(n) => {
                    if sc {
                        if o.ti.size == *n && o.ti.scalar.is_some() {
                            self.sval(st, o)?
                        } else if o.ti.size >= *n {
                            // wide pointer to thin pointer, or reinterpretation of memory
                            match &o.k {
                                OpK::Place(pl) => {
                                    let l = self.place(st, pl)?;
                                    self.load(st, &l, *n)?
                                }
                                _ => self.first_word(st, o)?,
                            }
                        } else {
                            return unsup("cast growing");
                        }
                    } else {
                        let mut v = self.ovals(st, o)?;
                        v.retain(|x| x.0 + x.1 as u32 <= *n);
                        let l = self.place(st, p)?;
                        return self.put(st, &l, p.ti, v);
                    }
                }
                CastL::UnsizeLen(n) => {
                    let v = self.first_word(st, o)?;
                    let l = self.place(st, p)?;
                    return self.put(st, &l, p.ti, vec![(0, 8, v), (8, 8, Val::C(*n))]);
                }
                CastL::UnsizeVt(t) => {
                    let v = self.first_word(st, o)?;
                    let l = self.place(st, p)?;
                    return self.put(st, &l, p.ti, vec![(0, 8, v), (8, 8, Val::Ptr(Base::VT(*t), 0))]);
                }
                CastL::Fn(f) => Val::Ptr(Base::Fn(*f), 0),
            },
            RvL::Agg(fs, tag) => {
                let mut out: Vec<(u32, u8, Val)> = vec![];
                for (o, op) in fs {
                    for (q, s, v) in self.ovals(st, op)? {
                        out.push((o + q, s, v));
                    }
                }
                let l = self.place(st, p)?;
                self.put(st, &l, p.ti, out)?;
                if let Some((o, s, v)) = tag {
                    let mut m = l.clone();
                    m.k += *o as i64;
                    self.store_val(st, &m, *s, Val::C(*v))?;
                }
                return Ok(());
            }
            RvL::Repeat(o, n) => {
                let es = o.ti.size;
                let l = self.place(st, p)?;
                let vals = self.ovals(st, o)?;
                let LB::Mem(b) = l.base else {
                    let mut out = vec![];
                    for i in 0..*n as u32 {
                        for (q, s, v) in &vals {
                            out.push((i * es + q, *s, v.clone()));
                        }
                    }
                    return self.put(st, &l, p.ti, out);
                };
                if es == 1 && vals.len() == 1 && l.s.is_none() {
                    let d = &self.dom;
                    self.store_mut(st, b)?.fill(d, l.k as u32, *n as u32, &vals[0].2);
                    return Ok(());
                }
                let mut out = vec![];
                for i in 0..*n as u32 {
                    for (q, s, v) in &vals {
                        out.push((i * es + q, *s, v.clone()));
                    }
                }
                return self.put(st, &l, p.ti, out);
            }
            RvL::Unsupported(e) => return unsup(e.clone()),
        };
        // scalar store
        if p.proj.is_empty() {
            let fi = st.frames.len() - 1;
            if st.frames[fi].func.locals[p.local as usize].1 {
                Rc::make_mut(&mut st.frames[fi]).locals[p.local as usize] = Slot::V(v);
                return Ok(());
            }
        }
        let l = self.place(st, p)?;
        if p.ti.scalar.is_none() {
            return self.put(st, &l, p.ti, vec![(0, p.ti.size as u8, v)]);
        }
        self.store_val(st, &l, p.ti.size, v)
    }

    pub fn bin(&self, op: Op, x: &Val, y: &Val, bits: u32, signed: bool, kind: SK, ybits: u32) -> R<Val> {
        if kind == SK::Float {
            return Ok(self.fbin(op, x, y, bits));
        }
        let mut y2;
        let mut yr = y;
        if matches!(op, Op::Shl | Op::Shr) && ybits != bits {
            // shift amount has its own width
            if let Val::C(c) = y {
                y2 = Val::C(*c & (bits as u64 - 1));
                yr = &y2;
            } else {
                y2 = self.dom.binop(Op::And, y, &Val::C(bits as u64 - 1), ybits.max(bits), false);
                if let Val::Undef = y2 {
                    y2 = Val::Top;
                }
                yr = &y2;
            }
        }
        Ok(self.dom.binop(op, x, yr, bits, signed))
    }

    pub fn ptr_off(&self, st: &State<'tcx>, p: &Val, n: &Val, stride: u32) -> R<Val> {
        let o = self.dom.binop(Op::Mul, n, &Val::C(stride as u64), 64, false);
        let o = guard::reduce_val(&st.guard, &o);
        Ok(match (p, &o) {
            (Val::Ptr(b, k), Val::C(c)) => Val::Ptr(*b, k.wrapping_add(*c as i64)),
            (Val::C(k), Val::C(c)) => Val::C(k.wrapping_add(*c)),
            (Val::Ptr(b, k), o) => Val::SPtr(Rc::new((*b, self.dom.binop(Op::Add, o, &Val::C(*k as u64), 64, false)))),
            (Val::SPtr(q), o) => {
                let s = self.dom.binop(Op::Add, &q.1, o, 64, false);
                match s {
                    Val::C(c) => Val::Ptr(q.0, c as i64),
                    s => Val::SPtr(Rc::new((q.0, s))),
                }
            }
            _ => return unsup(format!("pointer offset {p:?} + {o:?}")),
        })
    }

    pub fn discr(&self, st: &State<'tcx>, l: &Loc, d: &DiscrL) -> R<Val> {
        Ok(match d {
            DiscrL::Single(v) => Val::C(*v),
            DiscrL::Direct { off, size, signed, rbits } => {
                let mut m = l.clone();
                m.k += *off as i64;
                let v = self.load(st, &m, *size)?;
                self.dom.int_cast(&v, size * 8, *rbits, *signed)
            }
            DiscrL::Niche { off, size, start, vstart, vlast, untagged, table } => {
                let mut m = l.clone();
                m.k += *off as i64;
                let v = self.load(st, &m, *size)?;
                match v {
                    Val::Ptr(..) | Val::SPtr(..) => Val::C(*untagged),
                    v => {
                        let msk = mask(size * 8);
                        let n = (vlast - vstart) as u64;
                        let f = |t: u64| {
                            let rel = t.wrapping_sub(*start) & msk;
                            if rel <= n { table[rel as usize] } else { *untagged }
                        };
                        match &v {
                            Val::R(lo, hi) => {
                                // interval tags: decided when the interval misses the niche
                                if (0..=n).all(|r| {
                                    let t = start.wrapping_add(r) & msk;
                                    t < *lo || t > *hi
                                }) {
                                    return Ok(Val::C(*untagged));
                                }
                                Val::Top
                            }
                            Val::B(b) if bits_to_tab(b, self.dom.max_dims).is_none() => {
                                let (lo, hi) = urange(&v, size * 8);
                                if (0..=n).all(|r| {
                                    let t = start.wrapping_add(r) & msk;
                                    t < lo || t > hi
                                }) {
                                    return Ok(Val::C(*untagged));
                                }
                                Val::Top
                            }
                            _ => self.dom.map1(&v, f, 64),
                        }
                    }
                }
            }
        })
    }

    // ------------------------------------------------------------ control
    pub fn goto(&self, st: &mut State<'tcx>, target: u32) {
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        let f = fr.func.clone();
        let (pu, pv) = (&f.blocks[fr.bb as usize].path, &f.blocks[target as usize].path);
        let (cu, cv) = (&pu[..pu.len() - 1], &pv[..pv.len() - 1]);
        let mut c = 0;
        while c < cu.len() && c < cv.len() && cu[c] == cv[c] {
            c += 1;
        }
        fr.iters.truncate(c);
        if f.blocks[target as usize].header && c == cv.len() {
            *fr.iters.last_mut().unwrap() += 1;
        } else {
            while fr.iters.len() < cv.len() {
                fr.iters.push(0);
            }
        }
        fr.bb = target;
    }

    pub fn key(&self, st: &State<'tcx>) -> Vec<u32> {
        let mut k = Vec::with_capacity(st.frames.len() * 6);
        for (i, f) in st.frames.iter().enumerate() {
            if i > 0 {
                k.push(f.func.id);
            }
            let p = &f.func.blocks[f.bb as usize].path;
            for j in 0..p.len() - 1 {
                k.push(p[j]);
                k.push(f.iters[j]);
            }
            k.push(p[p.len() - 1]);
        }
        k
    }

    pub fn push_call(&self, st: &mut State<'tcx>, f: &Rc<Func<'tcx>>, args: Vec<Arg<'tcx>>, dest: Option<(Loc, TI)>, ret: Option<u32>) -> R<()> {
        if st.frames.len() > 200 {
            return unsup("call depth");
        }
        let fi = st.frames.len() as u16;
        let nl = f.locals.len();
        let fr = Frame {
            func: f.clone(),
            bb: 0,
            iters: vec![0; f.blocks[0].path.len() - 1],
            locals: vec![Slot::N; nl],
            dest,
            ret,
            memo: None,
        };
        st.frames.push(Rc::new(fr));
        // argument passing with rust-call untupling / retupling
        let mut list: Vec<Arg<'tcx>> = vec![];
        if let Some(sp) = f.spread {
            let fixed = sp as usize - 1;
            for a in args.iter().take(fixed) {
                list.push(a.clone());
            }
            let rest = &args[fixed.min(args.len())..];
            let tty = f.ltys[sp as usize];
            if rest.len() == 1 && rest[0].ty == tty {
                list.push(rest[0].clone());
            } else {
                let l = self.lo.layout(tty);
                let mut vals = vec![];
                for (i, a) in rest.iter().enumerate() {
                    let o = l.fields.offset(i).bytes() as u32;
                    for (q, s, v) in &a.vals {
                        vals.push((o + q, *s, v.clone()));
                    }
                }
                list.push(Arg { ty: tty, ti: self.lo.ti(tty), vals });
            }
        } else {
            let n = args.len();
            let mut untuple = false;
            if n >= 1 {
                if let rustc_middle::ty::Tuple(_) = args[n - 1].ty.kind() {
                    let same = n == f.nargs && f.ltys[n] == args[n - 1].ty;
                    if !same {
                        untuple = true;
                    }
                }
            }
            if untuple {
                for a in args.iter().take(n - 1) {
                    list.push(a.clone());
                }
                let t = &args[n - 1];
                let l = self.lo.layout(t.ty);
                let rustc_middle::ty::Tuple(tys) = t.ty.kind() else { unreachable!() };
                for (i, ty) in tys.iter().enumerate() {
                    let ti = self.lo.ti(ty);
                    let o = l.fields.offset(i).bytes() as u32;
                    let vals = t
                        .vals
                        .iter()
                        .filter(|v| v.0 >= o && v.0 + v.1 as u32 <= o + ti.size)
                        .map(|v| (v.0 - o, v.1, v.2.clone()))
                        .collect();
                    list.push(Arg { ty, ti, vals });
                }
            } else {
                list = args;
            }
        }
        if list.len() != f.nargs {
            return unsup(format!("argument count {} vs {} for {}", list.len(), f.nargs, f.path));
        }
        for (i, a) in list.into_iter().enumerate() {
            let n = (i + 1) as u16;
            let (ti, isv) = f.locals[n as usize];
            if ti.size == 0 {
                continue;
            }
            let l = if isv {
                Loc { base: LB::Slot(fi, n), k: 0, s: None, meta: None }
            } else {
                Loc { base: LB::Mem(Base::Local(fi, n)), k: 0, s: None, meta: None }
            };
            self.put(st, &l, ti, a.vals)?;
        }
        Ok(())
    }

    fn step(&self, st: &mut State<'tcx>, client: &mut dyn Client<'tcx>) -> R<Step<'tcx>> {
        let fr = st.frames.last().unwrap();
        let func = fr.func.clone();
        let bb = fr.bb;
        let blk = &func.blocks[bb as usize];
        {
            let mut s = self.stats.borrow_mut();
            s.blocks += 1;
            s.steps += blk.stmts.len() as u64 + 1;
            if func.is_local {
                s.sites.insert((func.id, bb));
            }
        }
        for s in &blk.stmts {
            match s {
                StL::Assign(p, r) => self.assign(st, p, r)?,
                StL::SetTag(p, o, sz, v) => {
                    let mut l = self.place(st, p)?;
                    l.k += *o as i64;
                    self.store_val(st, &l, *sz, Val::C(*v))?;
                }
                StL::Dead(l) => {
                    let f = st.frames.last_mut().unwrap();
                    if f.locals[*l as usize] != Slot::N {
                        Rc::make_mut(f).locals[*l as usize] = Slot::N;
                    }
                }
                StL::CopyNO { src, dst, n, esize } => {
                    let (s, d, n) = (self.sval(st, src)?, self.sval(st, dst)?, self.sval(st, n)?);
                    self.memcpy(st, &s, &d, &n, *esize)?;
                }
            }
        }
        match &blk.term {
            TermL::Goto(t) => {
                self.goto(st, *t);
                Ok(Step::Next)
            }
            TermL::Switch { op, arms, other, bits } => {
                let v = self.sval(st, op)?;
                self.switch(st, v, arms, *other, *bits)
            }
            TermL::Assert { cond, expected, target, msg } => {
                self.stats.borrow_mut().asserts += 1;
                let v = self.sval(st, cond)?;
                let ok = if *expected { v } else { self.dom.not(&v, 1) };
                match guard::decide(&self.dom, &st.guard, &ok) {
                    Some(true) => {
                        self.goto(st, *target);
                        Ok(Step::Next)
                    }
                    Some(false) => Err(Halt::Panic(msg.clone())),
                    None => {
                        if matches!(ok, Val::Undef) {
                            return unsup("assert on undef");
                        }
                        let mut out = vec![];
                        let bad = self.dom.not(&ok, 1);
                        let what = format!("{} at {}", msg, self.span_str(blk.span));
                        if let Some(g) = guard::assume(&self.dom, &st.guard, &bad, &what) {
                            let mut s2 = st.clone();
                            s2.guard = g;
                            let (at, f) = self.where_(&s2);
                            out.push((s2, Outcome::Panic { msg: msg.clone(), at, func: f }));
                        }
                        for (s, o) in out {
                            self.stats.borrow_mut().partitions += 1;
                            client.done(self, s, o);
                        }
                        match guard::assume(&self.dom, &st.guard, &ok, "assert") {
                            Some(g) => {
                                st.guard = g;
                                self.goto(st, *target);
                                Ok(Step::Next)
                            }
                            None => Ok(Step::Fork(vec![])),
                        }
                    }
                }
            }
            TermL::Return => {
                let ti = func.locals[0].0;
                let vals = if ti.size == 0 {
                    vec![]
                } else {
                    let fi = st.frames.len() as u16 - 1;
                    let l = if func.locals[0].1 {
                        Loc { base: LB::Slot(fi, 0), k: 0, s: None, meta: None }
                    } else {
                        Loc { base: LB::Mem(Base::Local(fi, 0)), k: 0, s: None, meta: None }
                    };
                    if ti.scalar.is_some() { vec![(0, ti.size as u8, self.load(st, &l, ti.size)?)] } else { self.loc_vals(st, &l, ti)? }
                };
                let f = st.frames.pop().unwrap();
                if let Some((args, gd, nh)) = &f.memo {
                    if *nh == st.nhooks && *gd == guard_id(&st.guard) && vals.len() == 1 {
                        if let Val::C(c) = vals[0].2 {
                            self.memo.borrow_mut().insert((func.id, args.clone()), c);
                        }
                    }
                }
                if st.frames.is_empty() {
                    let v = vals.first().map_or(Val::C(0), |v| v.2.clone());
                    return Ok(Step::Done(Outcome::Return(v)));
                }
                if let Some((l, ti)) = &f.dest {
                    self.put(st, l, *ti, vals)?;
                }
                match f.ret {
                    Some(b) => {
                        self.goto(st, b);
                        Ok(Step::Next)
                    }
                    None => unsup("return from diverging call"),
                }
            }
            TermL::Unreachable => unsup("reached unreachable"),
            TermL::Unsupported(e) => unsup(e.clone()),
            TermL::Drop { place, glue, target, dynamic } => {
                let glue = if *dynamic {
                    let l = self.place(st, place)?;
                    let Some(Val::Ptr(Base::VT(v), _)) = l.meta else { return unsup("dyn drop") };
                    let (ty, _) = self.lo.vts.borrow()[v as usize];
                    let i = rustc_middle::ty::Instance::resolve_drop_glue(self.lo.tcx, ty);
                    match i.def {
                        rustc_middle::ty::InstanceKind::Shim(rustc_middle::ty::ShimKind::DropGlue(_, None)) => None,
                        _ => Some(self.lo.fid(i)),
                    }
                } else {
                    *glue
                };
                let Some(g) = glue else {
                    self.goto(st, *target);
                    return Ok(Step::Next);
                };
                let gpath = &self.lo.insts.borrow()[g as usize].to_string();
                if self.cfg.model_lru && gpath.contains("lru::") {
                    self.goto(st, *target);
                    return Ok(Step::Next);
                }
                let l = self.place(st, place)?;
                if let LB::Mem(Base::Local(f, n)) = l.base {
                    self.ensure(st, f, n);
                }
                let a = self.addr(&l)?;
                let f = match self.lo.func(g) {
                    Ok(f) => f,
                    Err(e) => return unsup(e),
                };
                let mut vals = vec![(0, 8, a)];
                if let Some(m) = l.meta {
                    vals.push((8, 8, m));
                }
                let ty = f.ltys[1];
                self.push_call(st, &f, vec![Arg { ty, ti: self.lo.ti(ty), vals }], None, Some(*target))?;
                Ok(Step::Next)
            }
            TermL::Call { callee, args, dest, target, .. } => self.call(st, client, callee, args, dest, *target),
        }
    }

    fn switch(&self, st: &mut State<'tcx>, v: Val, arms: &[(u64, u32)], other: u32, bits: u32) -> R<Step<'tcx>> {
        if let Val::C(c) = v {
            let t = arms.iter().find(|a| a.0 == c).map_or(other, |a| a.1);
            self.goto(st, t);
            return Ok(Step::Next);
        }
        if let Val::Ptr(..) = v {
            self.goto(st, other);
            return Ok(Step::Next);
        }
        if let Val::Undef = v {
            return unsup(format!("branch on undefined value"));
        }
        let r = guard::reduce_val(&st.guard, &v);
        if let Val::C(c) = r {
            let t = arms.iter().find(|a| a.0 == c).map_or(other, |a| a.1);
            self.goto(st, t);
            return Ok(Step::Next);
        }
        let fe = guard::feasible(&self.dom, &st.guard, &r);
        let mut targets: Vec<(Val, u32)> = vec![]; // (cond, target)
        if let Some((t, ok)) = fe {
            // group entries by arm
            let mut by: BTreeMap<usize, Vec<bool>> = BTreeMap::new();
            for i in 0..ok.len() {
                if !ok[i] {
                    continue;
                }
                let a = arms.iter().position(|a| a.0 == t.vals[i]).unwrap_or(arms.len());
                by.entry(a).or_insert_with(|| vec![false; ok.len()])[i] = true;
            }
            if by.len() == 1 {
                let a = *by.keys().next().unwrap();
                let t = if a < arms.len() { arms[a].1 } else { other };
                self.goto(st, t);
                return Ok(Step::Next);
            }
            for (a, set) in by {
                let tg = if a < arms.len() { arms[a].1 } else { other };
                // express as a condition on the value itself (so that it stays meaningful without the guard)
                let cond = if a < arms.len() {
                    self.dom.binop(Op::Eq, &r, &Val::C(arms[a].0), bits, false)
                } else {
                    norm_tab(Tab { basis: t.basis.clone(), vals: set.iter().map(|&b| b as u64).collect() })
                };
                targets.push((cond, tg));
            }
        } else {
            let mut neg = Val::C(1);
            let (lo, hi) = urange(&r, bits);
            for (k, tg) in arms {
                if *k < lo || *k > hi {
                    continue;
                }
                let c = self.dom.binop(Op::Eq, &r, &Val::C(*k), bits, false);
                if let Some(false) = guard::decide(&self.dom, &st.guard, &c) {
                    continue;
                }
                let nc = self.dom.not(&c, 1);
                neg = self.dom.binop(Op::And, &neg, &nc, 8, false);
                targets.push((c, *tg));
            }
            // otherwise branch feasible unless arms cover the range
            let covered = (hi - lo) < 64 && (lo..=hi).all(|x| arms.iter().any(|a| a.0 == x));
            if !covered {
                targets.push((neg, other));
            }
        }
        let at = self.span_str(st.frames.last().unwrap().func.blocks[st.frames.last().unwrap().bb as usize].span);
        let mut out = vec![];
        for (c, tg) in targets {
            let Some(g) = guard::assume(&self.dom, &st.guard, &c, &at) else { continue };
            let mut s2 = st.clone();
            s2.guard = g;
            s2.forks += 1;
            self.goto(&mut s2, tg);
            out.push(s2);
        }
        self.stats.borrow_mut().forks += 1;
        Ok(Step::Fork(out))
    }

    pub fn memcpy(&self, st: &mut State<'tcx>, src: &Val, dst: &Val, n: &Val, esize: u32) -> R<()> {
        let n = match guard::reduce_val(&st.guard, n) {
            Val::C(n) => n,
            v => return unsup(format!("memcpy of abstract length {v:?}")),
        };
        let len = (n * esize as u64) as u32;
        if len == 0 {
            return Ok(());
        }
        let (Val::Ptr(sb, so), Val::Ptr(db, d_o)) = (src, dst) else {
            if let (Val::SPtr(s), Val::Ptr(..) | Val::SPtr(..)) = (src, dst) {
                if esize <= 8 && n == 1 {
                    let v = self.load_sym(st, s.0, &s.1, 0, esize)?;
                    let l = self.ptr_loc(dst)?;
                    return self.store_val(st, &l, esize, v);
                }
            }
            if let (Val::Ptr(sb, so), Val::SPtr(_)) = (src, dst) {
                if esize <= 8 && n == 1 {
                    let v = self.read(st, *sb, *so, esize)?;
                    let l = self.ptr_loc(dst)?;
                    return self.store_val(st, &l, esize, v);
                }
            }
            return unsup(format!("memcpy {src:?} -> {dst:?}"));
        };
        let v = self.slice(st, *sb, *so, len)?;
        self.put_slice(st, *db, *d_o, len, v)
    }

    pub fn heap_alloc(&self, st: &mut State<'tcx>, size: u32) -> Val {
        let s = Some(Rc::new(Store::new(size)));
        for i in 0..st.heap.len() {
            if st.heap[i].is_none() {
                st.heap[i] = s;
                return Val::Ptr(Base::Heap(i as u32), 0);
            }
        }
        st.heap.push(s);
        Val::Ptr(Base::Heap(st.heap.len() as u32 - 1), 0)
    }

    fn call(
        &self,
        st: &mut State<'tcx>,
        client: &mut dyn Client<'tcx>,
        callee: &CalleeL<'tcx>,
        args: &[OperL<'tcx>],
        dest: &PlaceL<'tcx>,
        target: Option<u32>,
    ) -> R<Step<'tcx>> {
        let mut fid = match callee {
            CalleeL::Panic(p) => return Err(Halt::Panic(p.clone())),
            CalleeL::Nop => {
                self.goto(st, target.unwrap());
                return Ok(Step::Next);
            }
            CalleeL::Intr(name, tys, def) => {
                return self.intrinsic(st, client, name, tys, *def, args, dest, target);
            }
            CalleeL::Fn(f) => *f,
            CalleeL::Virtual(_) => u32::MAX,
            CalleeL::Ptr(o) => match self.sval(st, o)? {
                Val::Ptr(Base::Fn(f), 0) => f,
                v => return unsup(format!("call through {v:?}")),
            },
        };
        let mut av: Vec<Arg<'tcx>> = Vec::with_capacity(args.len());
        for a in args {
            av.push(Arg { ty: a.ty, ti: a.ti, vals: self.ovals(st, a)? });
        }
        if let CalleeL::Virtual(idx) = callee {
            let Val::Ptr(Base::VT(v), _) = av[0].at(8) else { return unsup("virtual call on unknown vtable") };
            let Some(f) = self.lo.vt_method(v, *idx) else { return unsup("vtable slot") };
            fid = f;
            av[0].vals.truncate(1);
            av[0].vals.retain(|x| x.0 == 0);
            let p = av[0].at(0);
            if let Val::Undef = p {
                return unsup("virtual receiver");
            }
        }
        self.call_fn(st, client, fid, av, dest, target)
    }

    pub fn call_fn(
        &self,
        st: &mut State<'tcx>,
        client: &mut dyn Client<'tcx>,
        fid: u32,
        av: Vec<Arg<'tcx>>,
        dest: &PlaceL<'tcx>,
        target: Option<u32>,
    ) -> R<Step<'tcx>> {
        // environment models
        let inst = self.lo.insts.borrow()[fid as usize];
        let path = {
            let mut ps = self.paths.borrow_mut();
            if ps.len() <= fid as usize {
                ps.resize(fid as usize + 1, None);
            }
            ps[fid as usize].get_or_insert_with(|| self.lo.inst_path(inst).into()).clone()
        };
        // the region table is replaced by the analysis entry points' description of it
        if self.cfg.model_lru && !inst.def_id().is_local() && self.lo.tcx.crate_name(inst.def_id().krate).as_str() == "lru" {
            let last = path.rsplit("::").next().unwrap_or("");
            let name = match path.strip_prefix('<').and_then(|p| p.split(" as ").next()) {
                // method of a trait: qualified by the type
                Some(ty) => {
                    let ty = ty.split('<').next().unwrap_or("").rsplit("::").next().unwrap_or("");
                    format!("{ty}_{last}")
                }
                None => last.to_string(),
            };
            if let Some(i) = crate::props::entry(self.lo.tcx, &format!("__vl::lru_{name}")) {
                let f2 = self.lo.fid(i);
                return self.call_fn(st, client, f2, av, dest, target);
            }
        }
        if inst.def_id().is_local() && !self.cfg.redirect.is_empty() {
            if let Some((_, to)) = self.cfg.redirect.iter().find(|(from, _)| path.ends_with(from.as_str()) && !path.starts_with("__v")) {
                let tcx = self.lo.tcx;
                let Some(i) = crate::props::entry_def(tcx, to) else { return unsup(format!("no {to}")) };
                let to = Instance::new_raw(i, inst.args);
                let sig = |i: Instance<'tcx>| {
                    let s = tcx.instantiate_bound_regions_with_erased(tcx.fn_sig(i.def_id()).instantiate(tcx, i.args).skip_norm_wip());
                    tcx.erase_and_anonymize_regions(s)
                };
                if tcx.generics_of(inst.def_id()).count() != tcx.generics_of(i).count() || sig(inst) != sig(to) {
                    return unsup(format!("{path} has another signature now"));
                }
                let f2 = self.lo.fid(to);
                return self.call_fn(st, client, f2, av, dest, target);
            }
        }
        let dl = if dest.ti.size > 0 { Some((self.place(st, dest)?, dest.ti)) } else { None };
        if let Some(r) = self.model(st, client, &path, inst, &av)? {
            st.nhooks += 1;
            if let Some((l, ti)) = &dl {
                self.put(st, l, *ti, r)?;
            }
            let Some(t) = target else { return unsup("model diverges") };
            self.goto(st, t);
            return Ok(Step::Next);
        }
        let f = match self.lo.func(fid) {
            Ok(f) => f,
            Err(e) => return unsup(e),
        };
        self.stats.borrow_mut().funcs.insert(fid);
        if let Some(r) = client.model(self, st, &f, &av) {
            st.nhooks += 1;
            let vals = r?;
            if let Some((l, ti)) = &dl {
                self.put(st, l, *ti, vals)?;
            }
            let Some(t) = target else { return unsup("model diverges") };
            self.goto(st, t);
            return Ok(Step::Next);
        }
        let mut memo = None;
        if f.pure_scalar_args {
            let cs: Option<Vec<u64>> = av
                .iter()
                .filter(|a| a.ti.size > 0)
                .map(|a| if let Val::C(c) = a.at(0) { Some(c) } else { None })
                .collect();
            if let Some(cs) = cs {
                let k = (fid, cs);
                if let Some(&r) = self.memo.borrow().get(&k) {
                    if let Some((l, ti)) = &dl {
                        self.put(st, l, *ti, vec![(0, ti.size as u8, Val::C(r))])?;
                    }
                    let Some(t) = target else { return unsup("memo diverges") };
                    self.goto(st, t);
                    return Ok(Step::Next);
                }
                memo = Some((k.1, guard_id(&st.guard), st.nhooks));
            }
        }
        self.push_call(st, &f, av, dl, target)?;
        if memo.is_some() {
            Rc::make_mut(st.frames.last_mut().unwrap()).memo = memo;
        }
        Ok(Step::Next)
    }

    pub fn read_bytes(&self, st: &State<'tcx>, p: &Val, n: u64) -> R<Vec<Val>> {
        let mut out = vec![];
        if n == 0 {
            return Ok(out);
        }
        match p {
            Val::Ptr(b, o) => {
                for i in 0..n {
                    out.push(self.read(st, *b, *o + i as i64, 1)?);
                }
            }
            Val::SPtr(s) => {
                for i in 0..n {
                    out.push(self.load_sym(st, s.0, &s.1, i as i64, 1)?);
                }
            }
            _ => return unsup("bytes through integer pointer"),
        }
        Ok(out)
    }

    fn model(
        &self,
        st: &mut State<'tcx>,
        client: &mut dyn Client<'tcx>,
        path: &str,
        _inst: rustc_middle::ty::Instance<'tcx>,
        av: &[Arg<'tcx>],
    ) -> R<Option<Vec<(u32, u8, Val)>>> {
        let name = path.rsplit("::").next().unwrap_or(path);
        let c = |v: Val| -> R<u64> {
            match guard::reduce_val(&st.guard, &v) {
                Val::C(c) => Ok(c),
                v => unsup(format!("abstract argument {v:?}")),
            }
        };
        if name.starts_with("__v_") {
            return Ok(Some(match name {
                "__v_in" => {
                    let tag = c(av[0].at(0))?;
                    let v = client
                        .input(self, st, tag, av[1].at(0), av[2].at(0))
                        .map_err(|e| if let Some(p) = e.strip_prefix("!") { Halt::Panic(p.into()) } else { Halt::Unsup(e) })?;
                    vec![(0, 8, v)]
                }
                "__v_out" => {
                    let tag = c(av[0].at(0))?;
                    let v = av[1].at(0);
                    st.push_ev(Ev::Out(tag, vec![v]));
                    vec![]
                }
                "__v_bytes" => {
                    // (tag, ptr, len)
                    let tag = c(av[0].at(0))?;
                    let n = c(av[2].at(0))?;
                    let b = self.read_bytes(st, &av[1].at(0), n)?;
                    st.push_ev(Ev::Out(tag, b));
                    vec![]
                }
                "__v_write" => {
                    let n = c(av[1].at(0))?;
                    let b = self.read_bytes(st, &av[0].at(0), n)?;
                    if !self.cfg.no_events {
                        st.push_ev(Ev::Write(b));
                    }
                    vec![]
                }
                _ => return unsup(format!("unknown hook {name}")),
            }));
        }
        match name {
            "__rust_alloc" | "__rust_alloc_zeroed" => {
                let n = c(av[0].at(0))?;
                if n > 1 << 28 {
                    return unsup("huge allocation");
                }
                let p = self.heap_alloc(st, n as u32);
                if name == "__rust_alloc_zeroed" {
                    if let Val::Ptr(b, _) = p {
                        let d = &self.dom;
                        self.store_mut(st, b)?.fill(d, 0, n as u32, &Val::C(0));
                    }
                }
                Ok(Some(vec![(0, 8, p)]))
            }
            "__rust_dealloc" => {
                match av[0].at(0) {
                    Val::Ptr(Base::Heap(h), 0) => st.heap[h as usize] = None,
                    v => return unsup(format!("dealloc {v:?}")),
                }
                Ok(Some(vec![]))
            }
            "__rust_realloc" => {
                let old = av[0].at(0);
                let (os, ns) = (c(av[1].at(0))?, c(av[3].at(0))?);
                let Val::Ptr(Base::Heap(h), 0) = old else { return unsup("realloc") };
                let vals = self.slice(st, Base::Heap(h), 0, os.min(ns) as u32)?;
                st.heap[h as usize] = None;
                let p = self.heap_alloc(st, ns as u32);
                if let Val::Ptr(b, _) = p {
                    self.put_slice(st, b, 0, os.min(ns) as u32, vals)?;
                }
                Ok(Some(vec![(0, 8, p)]))
            }
            // library code only speeds up on aligned buffers: every object is taken to start aligned
            "align_offset" if av.len() == 2 && matches!(av[0].ty.builtin_deref(true), Some(t) if t == self.lo.tcx.types.u8) => {
                match (av[0].at(0), c(av[1].at(0))?) {
                    (Val::Ptr(_, o), al) if al.is_power_of_two() => Ok(Some(vec![(0, 8, Val::C((o as u64).wrapping_neg() & (al - 1)))])),
                    _ => Ok(None),
                }
            }
            "__rust_no_alloc_shim_is_unstable_v2" | "miri_promise_symbolic_alignment" => Ok(Some(vec![])),
            _ => {
                if self.cfg.model_lru && path.starts_with("lru::") {
                    return self.lru_model(st, path, av);
                }
                Ok(None)
            }
        }
    }

    fn lru_model(&self, st: &mut State<'tcx>, path: &str, av: &[Arg<'tcx>]) -> R<Option<Vec<(u32, u8, Val)>>> {
        // LruCache values are opaque to the analyses that do not look into them.
        let name = path.rsplit("::").next().unwrap_or(path);
        let _ = (st, av);
        match name {
            "new" => Ok(Some(vec![])),
            _ => unsup(format!("lru::{name}")),
        }
    }

    // ------------------------------------------------------------ driver
    pub fn run(&self, fid: u32, args: Vec<Arg<'tcx>>, client: &mut dyn Client<'tcx>) -> Result<(), String> {
        let f = self.lo.func(fid)?;
        let mut st = State { frames: vec![], heap: vec![], guard: None, ev: None, nhooks: 0, forks: 0 };
        self.push_call(&mut st, &f, args, None, None).map_err(|e| format!("{e:?}"))?;
        self.run_state(st, client)
    }

    pub fn run_state(&self, st: State<'tcx>, client: &mut dyn Client<'tcx>) -> Result<(), String> {
        struct Group<'tcx> {
            v: Vec<State<'tcx>>,
            clean: bool,
        }
        let mut pend: BTreeMap<(Vec<u32>, Vec<u64>), Group<'tcx>> = BTreeMap::new();
        let mut count = 0usize;
        let mut cur = Some(st);
        let start = self.stats.borrow().steps;
        let t0 = std::time::Instant::now();
        let mut tick = 0u32;
        loop {
            let mut st = match cur.take() {
                Some(s) => s,
                None => {
                    let Some(mut e) = pend.first_entry() else { break };
                    let g = e.get_mut();
                    if !g.clean {
                        let n0 = g.v.len();
                        let v = std::mem::take(&mut g.v);
                        g.v = self.merge_group(v);
                        count -= n0 - g.v.len();
                        g.clean = true;
                    }
                    let s = g.v.pop().unwrap();
                    count -= 1;
                    if g.v.is_empty() {
                        e.remove();
                    }
                    s
                }
            };
            loop {
                if self.stats.borrow().steps - start > self.cfg.max_steps {
                    return Err("step budget exhausted".into());
                }
                tick = tick.wrapping_add(1);
                if tick & 63 == 0 {
                    let now = std::time::Instant::now();
                    if self.cfg.deadline.map_or(false, |d| now > d) || now - t0 > self.cfg.max_time {
                        return Err("time budget exhausted".into());
                    }
                }
                if self.trace {
                    let f = st.frames.last().unwrap();
                    eprintln!("{:indent$}{} bb{} {:?}", "", f.func.path, f.bb, f.iters, indent = st.frames.len());
                }
                match self.step(&mut st, client) {
                    Ok(Step::Next) => {
                        if pend.is_empty() {
                            continue;
                        }
                        let k = self.key(&st);
                        let first = pend.first_key_value().unwrap().0;
                        if k < first.0 {
                            continue;
                        }
                        let k = (k, self.positions(&st));
                        if k < *first {
                            continue;
                        }
                        let g = pend.entry(k).or_insert(Group { v: vec![], clean: true });
                        g.v.push(st);
                        g.clean = g.v.len() == 1;
                        count += 1;
                        break;
                    }
                    Ok(Step::Fork(v)) => {
                        for s in v {
                            let k = (self.key(&s), self.positions(&s));
                            let g = pend.entry(k).or_insert(Group { v: vec![], clean: true });
                            g.v.push(s);
                            g.clean = g.v.len() == 1;
                            count += 1;
                        }
                        let mut stt = self.stats.borrow_mut();
                        stt.peak = stt.peak.max(count);
                        if count > self.cfg.max_states {
                            return Err(format!("too many partitions ({count})"));
                        }
                        break;
                    }
                    Ok(Step::Done(o)) => {
                        self.stats.borrow_mut().partitions += 1;
                        client.done(self, st, o);
                        break;
                    }
                    Err(h) => {
                        self.stats.borrow_mut().partitions += 1;
                        let (at, f) = self.where_(&st);
                        let o = match h {
                            Halt::Panic(m) => Outcome::Panic { msg: m, at, func: f },
                            Halt::Unsup(m) => {
                                if std::env::var("QRAI_DEBUG").is_ok() {
                                    eprintln!("UNSUPPORTED {m}\n{}", self.backtrace(&st));
                                }
                                Outcome::Unsupported { msg: m, at }
                            }
                        };
                        client.done(self, st, o);
                        break;
                    }
                }
            }
        }
        Ok(())
    }

    /// constants in memory and outer frames that tell partitions apart; smallest first keeps loops in order
    fn positions(&self, st: &State<'tcx>) -> Vec<u64> {
        let mut out = vec![];
        if !self.cfg.exact_first {
            return out;
        }
        let n = st.frames.len();
        for (fi, f) in st.frames.iter().enumerate() {
            let live = if fi + 1 == n {
                &f.func.blocks[f.bb as usize].live
            } else {
                match st.frames[fi + 1].ret {
                    Some(r) => &f.func.blocks[r as usize].live,
                    None => &f.func.blocks[f.bb as usize].live,
                }
            };
            for l in 0..f.locals.len() {
                if live[l] {
                    if let Slot::M(m) = &f.locals[l] {
                        m.constants(&mut out);
                    }
                }
            }
        }
        out
    }

    fn merge_group(&self, v: Vec<State<'tcx>>) -> Vec<State<'tcx>> {
        if self.cfg.no_join {
            return v;
        }
        let mut out: Vec<State<'tcx>> = vec![];
        for s in v {
            let mut cur = Some(s);
            // newest first: siblings are adjacent
            let lim = if self.cfg.lossy { usize::MAX } else { 12 };
            let mut i = out.len();
            let mut tries = 0;
            while i > 0 && tries < lim {
                i -= 1;
                tries += 1;
                if let Some(m) = self.merge(&out[i], cur.as_ref().unwrap()) {
                    out.remove(i);
                    self.stats.borrow_mut().merges += 1;
                    cur = Some(m);
                    i = out.len();
                    tries = 0;
                }
            }
            out.push(cur.unwrap());
        }
        out
    }

    pub fn merge(&self, a: &State<'tcx>, b: &State<'tcx>) -> Option<State<'tcx>> {
        if a.frames.len() != b.frames.len() || a.heap.len() != b.heap.len() {
            return None;
        }
        if a.nhooks != b.nhooks && !self.cfg.lossy {
            // different interaction histories are kept apart only if events differ
        }
        if !ev_eq(&a.ev, &b.ev) {
            return None;
        }
        if self.cfg.lossy && !self.cfg.exact_first && self.apart(a, b) {
            return None;
        }
        let (g, fa, fb) = guard::lca(&a.guard, &b.guard);
        if self.cfg.keep_rank > 0 {
            let r = |g: &guard::Guard| guard::eqs(g).map_or(0, |e| e.rows.len());
            if r(&a.guard).max(r(&b.guard)) >= r(&g) + self.cfg.keep_rank {
                return None;
            }
        }
        // a condition that holds on all of a and on nothing of b
        let cond: Option<Val> = match (&fa, &fb) {
            (Some(x), _) if x.kind == 1 => x.cond.clone(),
            (_, Some(y)) if y.kind == 1 => Some(self.dom.not(y.cond.as_ref().unwrap(), 1)),
            (Some(x), Some(y)) if x.kind == 0 && y.kind == 0 => match (&x.cond, &y.cond) {
                (Some(c), _) => Some(c.clone()),
                (_, Some(c)) => Some(self.dom.not(c, 1)),
                _ => None,
            },
            _ => None,
        };
        let affine = matches!(cond, Some(Val::B(_)));
        if self.cfg.lossy && self.cfg.exact_first && !affine && self.apart(a, b) {
            return None;
        }
        let mut news: Vec<(Base, u32, u8, Val)> = vec![];
        let mut extra: Vec<Val> = vec![]; // constraints on fresh atoms
        let mut m = a.clone();
        let n = a.frames.len();
        let mut cand: Vec<(usize, usize, Option<Slot>, Slot, Slot)> = vec![];
        for fi in 0..n {
            if Rc::ptr_eq(&a.frames[fi], &b.frames[fi]) {
                continue;
            }
            let (x, y) = (&a.frames[fi], &b.frames[fi]);
            if x.bb != y.bb || x.func.id != y.func.id || x.ret != y.ret {
                return None;
            }
            if x.dest.as_ref().map(|d| &d.0) != y.dest.as_ref().map(|d| &d.0) {
                return None;
            }
            let live = if fi + 1 == n {
                &x.func.blocks[x.bb as usize].live
            } else {
                match a.frames[fi + 1].ret {
                    Some(r) => &x.func.blocks[r as usize].live,
                    None => &x.func.blocks[x.bb as usize].live,
                }
            };
            for l in 0..x.locals.len() {
                let (p, q) = (&x.locals[l], &y.locals[l]);
                match (p, q) {
                    (Slot::M(p), Slot::M(q)) if Rc::ptr_eq(p, q) => continue,
                    _ => {}
                }
                if !live[l] {
                    if p != q {
                        Rc::make_mut(&mut m.frames[fi]).locals[l] = Slot::N;
                    }
                    continue;
                }
                match (p, q) {
                    (Slot::N, Slot::N) => {}
                    (Slot::N, _) => {
                        cand.push((fi, l, Some(q.clone()), Slot::N, Slot::N));
                    }
                    (_, Slot::N) => {}
                    (Slot::V(u), Slot::V(v)) => {
                        if u != v {
                            let size = x.func.locals[l].0.size;
                            let r = self.merge_val(&cond, affine, u, v, size, a, b, &mut extra)?;
                            cand.push((fi, l, Some(Slot::V(r)), Slot::N, Slot::N));
                        }
                    }
                    (Slot::M(u), Slot::M(v)) => {
                        for (o, s, p, q) in u.diff(&self.dom, v)? {
                            // constants in memory are positions and the like
                            if self.cfg.exact_first && s > 1 {
                                return None;
                            }
                            let r = self.merge_val(&cond, affine, &p, &q, s as u32, a, b, &mut extra)?;
                            news.push((Base::Local(fi as u16, l as u16), o, s, r));
                        }
                    }
                    _ => return None,
                }
            }
        }
        for h in 0..a.heap.len() {
            match (&a.heap[h], &b.heap[h]) {
                (None, None) => {}
                (Some(u), Some(v)) => {
                    if !Rc::ptr_eq(u, v) {
                        for (o, s, p, q) in u.diff(&self.dom, v)? {
                            let r = self.merge_val(&cond, affine, &p, &q, s as u32, a, b, &mut extra)?;
                            news.push((Base::Heap(h as u32), o, s, r));
                        }
                    }
                }
                _ => return None,
            }
        }
        for (fi, l, s, _, _) in cand {
            Rc::make_mut(&mut m.frames[fi]).locals[l] = s.unwrap();
        }
        for (b, o, s, v) in news {
            let d = &self.dom;
            self.store_mut(&mut m, b).ok()?.write(d, o, s as u32, v);
        }
        m.guard = if self.cfg.lossy { g } else { guard::union(&self.dom, &g, &a.guard, &b.guard) };
        for e in extra {
            m.guard = guard::assume(&self.dom, &m.guard, &e, "join")?;
        }
        m.nhooks = a.nhooks.max(b.nhooks) + 1;
        // memo entries of merged frames are void
        for f in m.frames.iter_mut() {
            if f.memo.is_some() {
                Rc::make_mut(f).memo = None;
            }
        }
        Some(m)
    }

    /// lossy joins: do control-relevant constants (or pointers) differ? looked at before anything is joined
    fn apart(&self, a: &State<'tcx>, b: &State<'tcx>) -> bool {
        let differ = |p: &Val, q: &Val, size: u32| match (p, q) {
            (Val::C(x), Val::C(y)) => x != y && size > 1,
            (Val::Undef, _) | (_, Val::Undef) => false,
            (Val::Ptr(..) | Val::SPtr(..), _) | (_, Val::Ptr(..) | Val::SPtr(..)) => p != q,
            _ => false,
        };
        let n = a.frames.len();
        for pass in 0..3 {
            for fi in (0..n).rev() {
                if Rc::ptr_eq(&a.frames[fi], &b.frames[fi]) {
                    continue;
                }
                let (x, y) = (&a.frames[fi], &b.frames[fi]);
                if x.bb != y.bb || x.func.id != y.func.id || x.ret != y.ret {
                    return true;
                }
                let live = if fi + 1 == n {
                    &x.func.blocks[x.bb as usize].live
                } else {
                    match a.frames[fi + 1].ret {
                        Some(r) => &x.func.blocks[r as usize].live,
                        None => &x.func.blocks[x.bb as usize].live,
                    }
                };
                for l in 0..x.locals.len() {
                    if !live[l] {
                        continue;
                    }
                    match (&x.locals[l], &y.locals[l]) {
                        (Slot::V(u), Slot::V(v)) if pass == 0 => {
                            if differ(u, v, x.func.locals[l].0.size) {
                                return true;
                            }
                            if self.cfg.flags && x.func.ltys[l].is_bool() && matches!((u, v), (Val::C(p), Val::C(q)) if p != q) {
                                return true;
                            }
                        }
                        // small aggregates first: iterators and the like
                        (Slot::M(u), Slot::M(v)) if pass == 1 + (x.func.locals[l].0.size > 40) as usize => {
                            if Rc::ptr_eq(u, v) {
                                continue;
                            }
                            match u.diff(&self.dom, v) {
                                None => return true,
                                Some(d) => {
                                    if d.iter().any(|(_, s, p, q)| differ(p, q, *s as u32)) {
                                        return true;
                                    }
                                }
                            }
                        }
                        _ => {}
                    }
                }
            }
        }
        false
    }

    fn merge_val(
        &self,
        cond: &Option<Val>,
        affine: bool,
        x: &Val,
        y: &Val,
        size: u32,
        a: &State<'tcx>,
        b: &State<'tcx>,
        extra: &mut Vec<Val>,
    ) -> Option<Val> {
        if x == y {
            return Some(x.clone());
        }
        match (x, y) {
            (Val::Undef, v) | (v, Val::Undef) => return Some(v.clone()),
            (Val::Ptr(..) | Val::SPtr(..), _) | (_, Val::Ptr(..) | Val::SPtr(..)) => return None,
            _ => {}
        }
        if !self.cfg.lossy {
            let c = cond.as_ref()?;
            let allow = if size == 1 { self.cfg.tab_merge } else { 0 };
            if !affine && size > 1 {
                return None;
            }
            return self.dom.ite(c, x, y, allow);
        }
        if self.cfg.exact_first {
            if let Some(c) = cond {
                if affine || size == 1 {
                    if let Some(v) = self.dom.ite(c, x, y, if size == 1 { self.cfg.tab_merge } else { 0 }) {
                        return Some(v);
                    }
                }
            }
            if size > 1 {
                return None;
            }
        }
        // lossy: distinct constants are control-relevant and keep partitions apart
        if let (Val::C(_), Val::C(_), true) = (x, y, size > 1) {
            return None;
        }
        self.stats.borrow_mut().lossy += 1;
        if size > 8 {
            return None;
        }
        if self.dom.fresh_bytes && size == 1 {
            let f = self.dom.fresh_val(8);
            if guard::surely_full(&a.guard, x) || guard::surely_full(&b.guard, y) {
                return Some(f);
            }
            // keep the non-relational value set if it is informative
            let sa = guard::values(&self.dom, &a.guard, x, 256);
            let sb = guard::values(&self.dom, &b.guard, y, 256);
            if let (Some(sa), Some(sb)) = (sa, sb) {
                let mut set = vec![0u64; 256];
                for v in sa.iter().chain(sb.iter()) {
                    set[*v as usize & 255] = 1;
                }
                if set.iter().any(|&v| v == 0) {
                    if let Val::B(bb) = &f {
                        if let Some(t) = bits_to_tab(bb, 8) {
                            let vals = t.vals.iter().map(|&v| set[v as usize]).collect();
                            extra.push(norm_tab(Tab { basis: t.basis, vals }));
                        }
                    }
                }
            }
            return Some(f);
        }
        let ((al, ah), (bl, bh)) = (urange(x, size * 8), urange(y, size * 8));
        Some(self.dom.rng(al.min(bl), ah.max(bh), size * 8))
    }
}

pub fn guard_id(g: &Guard) -> usize {
    g.as_ref().map_or(0, |n| Rc::as_ptr(n) as usize)
}

fn ev_eq(a: &Option<Rc<EvNode>>, b: &Option<Rc<EvNode>>) -> bool {
    let (mut x, mut y) = (a, b);
    loop {
        match (x, y) {
            (None, None) => return true,
            (Some(p), Some(q)) => {
                if Rc::ptr_eq(p, q) {
                    return true;
                }
                if p.n != q.n || p.ev != q.ev {
                    return false;
                }
                x = &p.prev;
                y = &q.prev;
            }
            _ => return false,
        }
    }
}
