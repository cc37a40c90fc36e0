//! Lowering of monomorphised MIR into a compact IR with all layouts resolved.
use crate::val::{Base, Op, Val};
use rustc_abi::{BackendRepr, FieldIdx, Primitive, TagEncoding, VariantIdx, Variants};
use rustc_middle::mir::interpret::{AllocId, GlobalAlloc, Scalar};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::layout::TyAndLayout;
use rustc_middle::ty::{self, EarlyBinder, Instance, InstanceKind, Ty, TyCtxt};
use rustc_span::Span;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum SK {
    Int,
    Float,
    Ptr,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct TI {
    pub size: u32,
    pub align: u32,
    /// single scalar of at most 8 bytes
    pub scalar: Option<SK>,
    pub signed: bool,
    pub unsized_: bool,
    /// thin value type is a wide pointer
    pub fat: bool,
}

#[derive(Clone, Debug)]
pub enum PL {
    Deref { fat: bool },
    Off(u32),
    Index { local: u16, stride: u32 },
    FromEnd { off: u32, stride: u32 },
    Sub { from: u32, to: u32, stride: u32, arr_len: Option<u32>, from_end: bool },
}

#[derive(Clone, Debug)]
pub struct PlaceL<'tcx> {
    pub local: u16,
    pub proj: Vec<PL>,
    pub ti: TI,
    pub ty: Ty<'tcx>,
}

#[derive(Clone, Debug)]
pub enum ConstL {
    Scalar(Val),
    Pair(Val, Val),
    Zst,
    Mem(Base, u32),
}

#[derive(Clone, Debug)]
pub enum OpK<'tcx> {
    Place(PlaceL<'tcx>),
    Const(ConstL),
}

#[derive(Clone, Debug)]
pub struct OperL<'tcx> {
    pub k: OpK<'tcx>,
    pub ti: TI,
    pub ty: Ty<'tcx>,
}

#[derive(Clone, Debug)]
pub enum DiscrL {
    Single(u64),
    Direct { off: u32, size: u32, signed: bool, rbits: u32 },
    Niche { off: u32, size: u32, start: u64, vstart: u32, vlast: u32, untagged: u64, table: Vec<u64> },
}

#[derive(Clone, Debug)]
pub enum CastL {
    Int { from: u32, to: u32, signed: bool },
    FloatToInt { from: u32, to: u32, signed: bool },
    IntToFloat { from: u32, to: u32, signed: bool },
    FloatToFloat { from: u32, to: u32 },
    /// copy first `n` bytes
    Bytes(u32),
    UnsizeLen(u64),
    UnsizeVt(u32),
    Fn(u32),
}

#[derive(Clone, Debug)]
pub enum RvL<'tcx> {
    Use(OperL<'tcx>),
    Repeat(OperL<'tcx>, u64),
    Ref(PlaceL<'tcx>),
    Cast(CastL, OperL<'tcx>),
    Bin { op: Op, a: OperL<'tcx>, b: OperL<'tcx>, bits: u32, signed: bool, kind: SK },
    BinO { op: Op, oop: Op, a: OperL<'tcx>, b: OperL<'tcx>, bits: u32, signed: bool, foff: u32 },
    Offset { a: OperL<'tcx>, b: OperL<'tcx>, stride: u32 },
    Not(OperL<'tcx>, u32),
    Neg(OperL<'tcx>, u32, SK),
    Meta(OperL<'tcx>),
    Discr(PlaceL<'tcx>, DiscrL),
    Agg(Vec<(u32, OperL<'tcx>)>, Option<(u32, u32, u64)>),
    Unsupported(String),
}

#[derive(Clone, Debug)]
pub enum StL<'tcx> {
    Assign(PlaceL<'tcx>, RvL<'tcx>),
    SetTag(PlaceL<'tcx>, u32, u32, u64),
    Dead(u16),
    CopyNO { src: OperL<'tcx>, dst: OperL<'tcx>, n: OperL<'tcx>, esize: u32 },
}

#[derive(Clone, Debug)]
pub enum CalleeL<'tcx> {
    Fn(u32),
    Virtual(u32),
    Ptr(OperL<'tcx>),
    Intr(String, Vec<Ty<'tcx>>, Instance<'tcx>),
    Panic(String),
    Nop,
}

#[derive(Clone, Debug)]
pub enum TermL<'tcx> {
    Goto(u32),
    Switch { op: OperL<'tcx>, arms: Vec<(u64, u32)>, other: u32, bits: u32 },
    Return,
    Unreachable,
    Drop { place: PlaceL<'tcx>, glue: Option<u32>, target: u32, dynamic: bool },
    Call { callee: CalleeL<'tcx>, args: Vec<OperL<'tcx>>, dest: PlaceL<'tcx>, target: Option<u32>, sp: Span },
    Assert { cond: OperL<'tcx>, expected: bool, target: u32, msg: String },
    Unsupported(String),
}

#[derive(Debug)]
pub struct BlockL<'tcx> {
    pub stmts: Vec<StL<'tcx>>,
    pub term: TermL<'tcx>,
    pub span: Span,
    pub sspans: Vec<Span>,
    /// position path: for every enclosing component its position and then the position of the block
    pub path: Vec<u32>,
    /// for each enclosing component: is this block its header
    pub header: bool,
    /// locals that may be read before being overwritten from the start of this block on
    pub live: Vec<bool>,
}

#[derive(Debug)]
pub struct Func<'tcx> {
    pub id: u32,
    pub inst: Instance<'tcx>,
    pub path: String,
    pub nargs: usize,
    pub spread: Option<u16>,
    pub locals: Vec<(TI, bool)>, // (type info, scalar slot)
    pub ltys: Vec<Ty<'tcx>>,
    pub blocks: Vec<BlockL<'tcx>>,
    pub is_local: bool,
    pub pure_scalar_args: bool,
    pub span: Span,
}

pub struct GlobalObj {
    pub bytes: Vec<u8>,
    pub rel: HashMap<u32, (Base, i64)>,
}

pub struct Lower<'tcx> {
    pub tcx: TyCtxt<'tcx>,
    pub env: ty::TypingEnv<'tcx>,
    pub funcs: RefCell<Vec<Result<Rc<Func<'tcx>>, String>>>,
    pub fids: RefCell<HashMap<Instance<'tcx>, u32>>,
    pub insts: RefCell<Vec<Instance<'tcx>>>,
    pub globals: RefCell<Vec<Rc<GlobalObj>>>,
    pub gids: RefCell<HashMap<AllocId, Base>>,
    pub vts: RefCell<Vec<(Ty<'tcx>, Option<ty::ExistentialTraitRef<'tcx>>)>>,
    pub vtids: RefCell<HashMap<(Ty<'tcx>, Option<ty::ExistentialTraitRef<'tcx>>), u32>>,
}

impl<'tcx> Lower<'tcx> {
    pub fn new(tcx: TyCtxt<'tcx>) -> Self {
        Lower {
            tcx,
            env: ty::TypingEnv::fully_monomorphized(),
            funcs: Default::default(),
            fids: Default::default(),
            insts: Default::default(),
            globals: Default::default(),
            gids: Default::default(),
            vts: Default::default(),
            vtids: Default::default(),
        }
    }

    pub fn layout(&self, ty: Ty<'tcx>) -> TyAndLayout<'tcx> {
        self.tcx.layout_of(self.env.as_query_input(ty)).unwrap_or_else(|e| panic!("layout of {ty:?}: {e:?}"))
    }

    pub fn ti(&self, ty: Ty<'tcx>) -> TI {
        let l = self.layout(ty);
        let mut signed = matches!(ty.kind(), ty::Int(_));
        let scalar = match l.backend_repr {
            BackendRepr::Scalar(s) => {
                let sz = s.size(&self.tcx).bytes();
                if sz <= 8 && sz == l.size.bytes() {
                    if let Primitive::Int(_, sg) = s.primitive() {
                        if !matches!(ty.kind(), ty::Int(_) | ty::Uint(_)) {
                            signed = sg && !matches!(ty.kind(), ty::Bool | ty::Char);
                        }
                    }
                    Some(match s.primitive() {
                        Primitive::Int(..) => SK::Int,
                        Primitive::Float(_) => SK::Float,
                        Primitive::Pointer(_) => SK::Ptr,
                    })
                } else {
                    None
                }
            }
            _ => None,
        };
        let fat = match ty.builtin_deref(true) {
            Some(p) => !self.is_sized(p),
            None => false,
        };
        TI {
            size: l.size.bytes() as u32,
            align: l.align.bytes() as u32,
            scalar: if l.size.bytes() == 0 { None } else { scalar },
            signed,
            unsized_: l.is_unsized(),
            fat,
        }
    }

    pub fn is_sized(&self, ty: Ty<'tcx>) -> bool {
        ty.is_sized(self.tcx, self.env)
    }

    pub fn fid(&self, i: Instance<'tcx>) -> u32 {
        if let Some(&f) = self.fids.borrow().get(&i) {
            return f;
        }
        let id = self.insts.borrow().len() as u32;
        self.insts.borrow_mut().push(i);
        self.funcs.borrow_mut().push(Err("?".into()));
        self.fids.borrow_mut().insert(i, id);
        id
    }

    pub fn func(&self, id: u32) -> Result<Rc<Func<'tcx>>, String> {
        let cur = self.funcs.borrow()[id as usize].clone();
        match cur {
            Err(e) if e == "?" => {
                let r = self.lower_fn(id).map(Rc::new);
                self.funcs.borrow_mut()[id as usize] = r.clone();
                r
            }
            r => r,
        }
    }

    pub fn vt(&self, ty: Ty<'tcx>, tr: Option<ty::ExistentialTraitRef<'tcx>>) -> u32 {
        let ty = self.tcx.erase_and_anonymize_regions(ty);
        let tr = tr.map(|t| self.tcx.erase_and_anonymize_regions(t));
        if let Some(&v) = self.vtids.borrow().get(&(ty, tr)) {
            return v;
        }
        let id = self.vts.borrow().len() as u32;
        self.vts.borrow_mut().push((ty, tr));
        self.vtids.borrow_mut().insert((ty, tr), id);
        id
    }

    pub fn vt_method(&self, vt: u32, idx: u32) -> Option<u32> {
        let (ty, tr) = self.vts.borrow()[vt as usize];
        let tr = tr?.with_self_ty(self.tcx, ty);
        let tr = self.tcx.erase_and_anonymize_regions(tr);
        match self.tcx.vtable_entries(tr).get(idx as usize)? {
            ty::VtblEntry::Method(i) => Some(self.fid(*i)),
            _ => None,
        }
    }

    pub fn global(&self, id: AllocId) -> Result<Base, String> {
        if let Some(b) = self.gids.borrow().get(&id) {
            return Ok(*b);
        }
        let b = match self.tcx.global_alloc(id) {
            GlobalAlloc::Function { instance } => Base::Fn(self.fid(instance)),
            GlobalAlloc::VTable(ty, preds) => Base::VT(self.vt(ty, preds.principal().map(|p| {
                self.tcx.instantiate_bound_regions_with_erased(p)
            }))),
            GlobalAlloc::Static(def) => {
                if self.tcx.is_foreign_item(def) || self.tcx.is_thread_local_static(def) || self.tcx.is_mutable_static(def) {
                    return Err(format!("static {}", self.tcx.def_path_str(def)));
                }
                let a = self.tcx.eval_static_initializer(def).map_err(|e| format!("{e:?}"))?;
                return self.mk_global(id, a);
            }
            GlobalAlloc::Memory(a) => return self.mk_global(id, a),
            GlobalAlloc::TypeId { .. } => return Err("typeid".into()),
        };
        self.gids.borrow_mut().insert(id, b);
        Ok(b)
    }

    fn mk_global(&self, id: AllocId, a: mir::interpret::ConstAllocation<'tcx>) -> Result<Base, String> {
        let gid = self.globals.borrow().len() as u32;
        let a = a.inner();
        let n = a.len();
        let bytes = a.inspect_with_uninit_and_ptr_outside_interpreter(0..n).to_vec();
        self.globals.borrow_mut().push(Rc::new(GlobalObj { bytes: vec![], rel: HashMap::new() }));
        self.gids.borrow_mut().insert(id, Base::Global(gid));
        let mut rel = HashMap::new();
        for &(off, prov) in a.provenance().ptrs().iter() {
            let o = off.bytes() as usize;
            let add = u64::from_le_bytes(bytes[o..o + 8].try_into().unwrap()) as i64;
            let b = match self.global(prov.alloc_id()) {
                Ok(b) => b,
                Err(_) => Base::Fn(u32::MAX),
            };
            rel.insert(o as u32, (b, add));
        }
        self.globals.borrow_mut()[gid as usize] = Rc::new(GlobalObj { bytes, rel });
        Ok(Base::Global(gid))
    }

    fn scalar(&self, s: Scalar) -> Result<Val, String> {
        Ok(match s {
            Scalar::Int(i) => {
                if i.size().bytes() > 8 {
                    return Err("u128 const".into());
                }
                Val::C(i.to_bits(i.size()) as u64)
            }
            Scalar::Ptr(p, _) => {
                let (prov, off) = p.into_raw_parts();
                Val::Ptr(self.global(prov.alloc_id())?, off.bytes() as i64)
            }
        })
    }

    pub fn const_val(&self, cv: ConstValue, ti: TI) -> Result<ConstL, String> {
        Ok(match cv {
            ConstValue::Scalar(s) => match self.scalar(s) {
                Ok(v) => ConstL::Scalar(v),
                Err(e) => {
                    if let Scalar::Int(i) = s {
                        if i.size().bytes() == 16 {
                            let b = i.to_bits(i.size());
                            return Ok(ConstL::Pair(Val::C(b as u64), Val::C((b >> 64) as u64)));
                        }
                    }
                    return Err(e);
                }
            },
            ConstValue::ZeroSized => ConstL::Zst,
            ConstValue::Slice { alloc_id, meta } => ConstL::Pair(Val::Ptr(self.global(alloc_id)?, 0), Val::C(meta)),
            ConstValue::Indirect { alloc_id, offset } => {
                let _ = ti;
                ConstL::Mem(self.global(alloc_id)?, offset.bytes() as u32)
            }
        })
    }

    pub fn tag_plan(&self, l: TyAndLayout<'tcx>, v: VariantIdx) -> Option<(u32, u32, u64)> {
        match &l.variants {
            Variants::Multiple { tag, tag_encoding, tag_field, .. } => {
                let off = l.fields.offset(tag_field.as_usize()).bytes() as u32;
                let size = tag.size(&self.tcx).bytes() as u32;
                match tag_encoding {
                    TagEncoding::Direct => {
                        let d = l.ty.discriminant_for_variant(self.tcx, v).unwrap().val as u64;
                        Some((off, size, d & crate::val::mask(size * 8)))
                    }
                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                        if v == *untagged_variant {
                            None
                        } else {
                            let rel = (v.as_u32() - niche_variants.start.as_u32()) as u64;
                            Some((off, size, (*niche_start as u64).wrapping_add(rel) & crate::val::mask(size * 8)))
                        }
                    }
                }
            }
            _ => None,
        }
    }

    pub fn discr_plan(&self, ty: Ty<'tcx>) -> DiscrL {
        let l = self.layout(ty);
        let dty = ty.discriminant_ty(self.tcx);
        let dbits = self.layout(dty).size.bytes() as u32 * 8;
        let dv = |v: VariantIdx| ty.discriminant_for_variant(self.tcx, v).map_or(0, |d| d.val as u64) & crate::val::mask(dbits);
        match &l.variants {
            Variants::Empty => DiscrL::Single(0),
            Variants::Single { index } => DiscrL::Single(dv(*index)),
            Variants::Multiple { tag, tag_encoding, tag_field, .. } => {
                let off = l.fields.offset(tag_field.as_usize()).bytes() as u32;
                let size = tag.size(&self.tcx).bytes() as u32;
                match tag_encoding {
                    TagEncoding::Direct => {
                        let signed = matches!(tag.primitive(), Primitive::Int(_, true));
                        DiscrL::Direct { off, size, signed, rbits: dbits }
                    }
                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                        let (s, e) = (niche_variants.start.as_u32(), niche_variants.last.as_u32());
                        DiscrL::Niche {
                            off,
                            size,
                            start: *niche_start as u64 & crate::val::mask(size * 8),
                            vstart: s,
                            vlast: e,
                            untagged: dv(*untagged_variant),
                            table: (s..=e).map(|i| dv(VariantIdx::from_u32(i))).collect(),
                        }
                    }
                }
            }
        }
    }

    pub fn inst_path(&self, i: Instance<'tcx>) -> String {
        self.tcx.def_path_str(i.def_id())
    }

    fn lower_fn(&self, id: u32) -> Result<Func<'tcx>, String> {
        let inst = self.insts.borrow()[id as usize];
        let tcx = self.tcx;
        match inst.def {
            InstanceKind::Item(d) => {
                if tcx.is_foreign_item(d) || !tcx.is_mir_available(d) {
                    return Err(format!("no MIR for {}", tcx.def_path_str(d)));
                }
            }
            InstanceKind::Intrinsic(_) | InstanceKind::LlvmIntrinsic(_) | InstanceKind::Virtual(..) => {
                return Err(format!("no body: {inst:?}"));
            }
            _ => {}
        }
        let body = tcx.instance_mir(inst.def);
        let body: Body<'tcx> =
            inst.instantiate_mir_and_normalize_erasing_regions(tcx, self.env, EarlyBinder::bind(tcx, body.clone()));
        let nl = body.local_decls.len();
        // address-taken locals
        let mut taken = vec![false; nl];
        for bb in body.basic_blocks.iter() {
            for s in &bb.statements {
                if let StatementKind::Assign(b) = &s.kind {
                    match &b.1 {
                        Rvalue::Ref(_, _, p) | Rvalue::RawPtr(_, p) | Rvalue::Reborrow(_, _, p) => {
                            if !p.is_indirect_first_projection() && !p.projection.iter().any(|e| matches!(e, ProjectionElem::Deref)) {
                                taken[p.local.as_usize()] = true;
                            }
                        }
                        _ => {}
                    }
                }
            }
            if let Some(t) = &bb.terminator {
                if let TerminatorKind::Drop { place, .. } = &t.kind {
                    if !place.projection.iter().any(|e| matches!(e, ProjectionElem::Deref)) {
                        taken[place.local.as_usize()] = true;
                    }
                }
            }
        }
        let mut locals = vec![];
        let mut ltys = vec![];
        for (l, d) in body.local_decls.iter_enumerated() {
            let ti = self.ti(d.ty);
            locals.push((ti, ti.scalar.is_some() && !taken[l.as_usize()]));
            ltys.push(d.ty);
        }
        let mut blocks = vec![];
        let (paths, headers) = wto(&body);
        let lives = liveness(&body, &taken);
        for (bi, bb) in body.basic_blocks.iter_enumerated() {
            let mut stmts = vec![];
            let mut sspans = vec![];
            if !bb.is_cleanup {
                for s in &bb.statements {
                    if let Some(st) = self.stmt(&body, s)? {
                        stmts.push(st);
                        sspans.push(s.source_info.span);
                    }
                }
            }
            let t = bb.terminator();
            let term = if bb.is_cleanup { TermL::Unreachable } else { self.term(&body, t)? };
            blocks.push(BlockL {
                stmts,
                term,
                span: t.source_info.span,
                sspans,
                path: paths[bi.as_usize()].clone(),
                header: headers[bi.as_usize()],
                live: lives[bi.as_usize()].clone(),
            });
        }
        let pure_scalar_args = body.arg_count > 0
            && (1..=body.arg_count).all(|i| {
                let t = locals[i].0;
                t.size == 0 || (t.scalar == Some(SK::Int))
            })
            && locals[0].0.scalar == Some(SK::Int);
        Ok(Func {
            id,
            inst,
            path: self.inst_path(inst),
            nargs: body.arg_count,
            spread: body.spread_arg.map(|l| l.as_u32() as u16),
            locals,
            ltys,
            blocks,
            is_local: inst.def_id().is_local(),
            pure_scalar_args,
            span: body.span,
        })
    }

    fn place(&self, body: &Body<'tcx>, p: &Place<'tcx>) -> Result<PlaceL<'tcx>, String> {
        let mut ty = body.local_decls[p.local].ty;
        let mut var: Option<VariantIdx> = None;
        let mut proj: Vec<PL> = vec![];
        let off = |proj: &mut Vec<PL>, o: u32| {
            if o == 0 {
                return;
            }
            if let Some(PL::Off(x)) = proj.last_mut() {
                *x += o;
            } else {
                proj.push(PL::Off(o));
            }
        };
        for e in p.projection.iter() {
            match e {
                ProjectionElem::Deref => {
                    let inner = ty.builtin_deref(true).ok_or_else(|| format!("deref of {ty:?}"))?;
                    if ty.is_box() {
                        return Err("box deref".into());
                    }
                    proj.push(PL::Deref { fat: !self.is_sized(inner) });
                    ty = inner;
                    var = None;
                }
                ProjectionElem::Field(f, fty) => {
                    let l = self.layout(ty);
                    let l = match var {
                        Some(v) => {
                            // layout for variant
                            match &l.variants {
                                Variants::Multiple { .. } => l.for_variant(&LCx(self), v),
                                _ => l,
                            }
                        }
                        None => l,
                    };
                    // no storage for a variant that cannot exist
                    let o = if matches!(l.fields, rustc_abi::FieldsShape::Primitive) { 0 } else { l.fields.offset(f.as_usize()).bytes() as u32 };
                    off(&mut proj, o);
                    ty = self.tcx.normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(fty));
                    var = None;
                }
                ProjectionElem::Index(l) => {
                    let et = ty.builtin_index().ok_or("index")?;
                    let stride = self.layout(et).size.bytes() as u32;
                    proj.push(PL::Index { local: l.as_u32() as u16, stride });
                    ty = et;
                }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    let et = ty.builtin_index().ok_or("index")?;
                    let stride = self.layout(et).size.bytes() as u32;
                    if from_end {
                        match ty.kind() {
                            ty::Array(_, n) => {
                                let n = n.try_to_target_usize(self.tcx).ok_or("len")?;
                                off(&mut proj, (n - offset) as u32 * stride);
                            }
                            _ => proj.push(PL::FromEnd { off: offset as u32, stride }),
                        }
                    } else {
                        off(&mut proj, offset as u32 * stride);
                    }
                    ty = et;
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let et = ty.builtin_index().ok_or("index")?;
                    let stride = self.layout(et).size.bytes() as u32;
                    let arr_len = match ty.kind() {
                        ty::Array(_, n) => Some(n.try_to_target_usize(self.tcx).ok_or("len")? as u32),
                        _ => None,
                    };
                    proj.push(PL::Sub { from: from as u32, to: to as u32, stride, arr_len, from_end });
                    if let Some(n) = arr_len {
                        let m = if from_end { n as u64 - from - to } else { to - from };
                        ty = Ty::new_array(self.tcx, et, m);
                    }
                }
                ProjectionElem::Downcast(_, v) => var = Some(v),
                ProjectionElem::OpaqueCast(t) | ProjectionElem::UnwrapUnsafeBinder(t) => ty = t,
                ProjectionElem::PhantomDeref => return Err("phantom deref".into()),
            }
        }
        Ok(PlaceL { local: p.local.as_u32() as u16, proj, ti: self.ti(ty), ty })
    }

    fn oper(&self, body: &Body<'tcx>, o: &Operand<'tcx>) -> Result<OperL<'tcx>, String> {
        Ok(match o {
            Operand::Copy(p) | Operand::Move(p) => {
                let pl = self.place(body, p)?;
                OperL { ti: pl.ti, ty: pl.ty, k: OpK::Place(pl) }
            }
            Operand::Constant(c) => {
                let ty = c.const_.ty();
                let ti = self.ti(ty);
                let cv = c.const_.eval(self.tcx, self.env, c.span).map_err(|e| format!("const eval {e:?}"))?;
                OperL { k: OpK::Const(self.const_val(cv, ti)?), ti, ty }
            }
            Operand::RuntimeChecks(rc) => {
                let v = matches!(rc, RuntimeChecks::OverflowChecks);
                let ty = self.tcx.types.bool;
                OperL { k: OpK::Const(ConstL::Scalar(Val::C(v as u64))), ti: self.ti(ty), ty }
            }
        })
    }

    fn stmt(&self, body: &Body<'tcx>, s: &Statement<'tcx>) -> Result<Option<StL<'tcx>>, String> {
        Ok(match &s.kind {
            StatementKind::Assign(b) => {
                let pl = self.place(body, &b.0)?;
                let rv = match self.rvalue(body, &b.1, pl.ty) {
                    Ok(r) => r,
                    Err(e) => RvL::Unsupported(e),
                };
                if pl.ti.size == 0 && !pl.ti.unsized_ {
                    if let RvL::Unsupported(_) = rv {
                        return Ok(Some(StL::Assign(pl, rv)));
                    }
                    return Ok(None);
                }
                Some(StL::Assign(pl, rv))
            }
            StatementKind::SetDiscriminant { place, variant_index } => {
                let pl = self.place(body, place)?;
                self.tag_plan(self.layout(pl.ty), *variant_index).map(|(o, s, v)| StL::SetTag(pl, o, s, v))
            }
            StatementKind::StorageDead(l) => Some(StL::Dead(l.as_u32() as u16)),
            StatementKind::Intrinsic(i) => match &**i {
                NonDivergingIntrinsic::Assume(_) => None,
                NonDivergingIntrinsic::CopyNonOverlapping(c) => {
                    let src = self.oper(body, &c.src)?;
                    let esize = self.layout(src.ty.builtin_deref(true).unwrap()).size.bytes() as u32;
                    Some(StL::CopyNO { src, dst: self.oper(body, &c.dst)?, n: self.oper(body, &c.count)?, esize })
                }
            },
            _ => None,
        })
    }

    fn unsize_info(&self, src: Ty<'tcx>, dst: Ty<'tcx>) -> Result<CastL, String> {
        // find pointee pair (through Box/NonNull style wrappers)
        let (mut a, mut b) = (src, dst);
        for _ in 0..8 {
            match (a.builtin_deref(true), b.builtin_deref(true)) {
                (Some(x), Some(y)) if !a.is_box() => {
                    let (x, y) = (self.tcx.struct_tail_for_codegen(x, self.env), self.tcx.struct_tail_for_codegen(y, self.env));
                    return match (x.kind(), y.kind()) {
                        (ty::Array(_, n), ty::Slice(_)) => {
                            Ok(CastL::UnsizeLen(n.try_to_target_usize(self.tcx).ok_or("len")?))
                        }
                        (ty::Dynamic(..), ty::Dynamic(..)) => Ok(CastL::Bytes(16)),
                        (_, ty::Dynamic(preds, ..)) => {
                            let tr = preds.principal().map(|p| self.tcx.instantiate_bound_regions_with_erased(p));
                            // need the original (non-tail) type
                            let orig = a.builtin_deref(true).unwrap();
                            let oty = if self.is_sized(orig) { orig } else { x };
                            Ok(CastL::UnsizeVt(self.vt(oty, tr)))
                        }
                        _ => Err(format!("unsize {x:?} {y:?}")),
                    };
                }
                _ => match (a.kind(), b.kind()) {
                    (ty::Adt(d1, s1), ty::Adt(d2, s2)) if d1 == d2 => {
                        // first field whose type differs
                        let mut found = None;
                        for f in d1.all_fields() {
                            let x = f.ty(self.tcx, s1);
                            let y = f.ty(self.tcx, s2);
                            let x = self.tcx.normalize_erasing_regions(self.env, x);
                            let y = self.tcx.normalize_erasing_regions(self.env, y);
                            if x != y && !self.layout(x).is_zst() {
                                found = Some((x, y));
                            }
                        }
                        let (x, y) = found.ok_or("unsize adt")?;
                        a = x;
                        b = y;
                    }
                    _ => return Err(format!("unsize {src:?} -> {dst:?}")),
                },
            }
        }
        Err("unsize depth".into())
    }

    fn num_bits(&self, ti: TI) -> u32 {
        ti.size * 8
    }

    fn rvalue(&self, body: &Body<'tcx>, r: &Rvalue<'tcx>, dty: Ty<'tcx>) -> Result<RvL<'tcx>, String> {
        Ok(match r {
            Rvalue::Use(o, _) => RvL::Use(self.oper(body, o)?),
            Rvalue::Repeat(o, n) => RvL::Repeat(self.oper(body, o)?, n.try_to_target_usize(self.tcx).ok_or("repeat n")?),
            Rvalue::Ref(_, _, p) | Rvalue::RawPtr(_, p) | Rvalue::Reborrow(_, _, p) => RvL::Ref(self.place(body, p)?),
            Rvalue::CopyForDeref(p) => {
                let pl = self.place(body, p)?;
                RvL::Use(OperL { ti: pl.ti, ty: pl.ty, k: OpK::Place(pl) })
            }
            Rvalue::Cast(k, o, ty) => {
                let op = self.oper(body, o)?;
                let t = self.ti(*ty);
                let c = match k {
                    CastKind::IntToInt => {
                        let signed = matches!(op.ty.kind(), ty::Int(_)) || (op.ty.is_enum() && op.ti.signed);
                        if op.ti.scalar.is_none() || t.scalar.is_none() {
                            return Err("wide int cast".into());
                        }
                        CastL::Int { from: op.ti.size * 8, to: t.size * 8, signed }
                    }
                    CastKind::FloatToInt => {
                        CastL::FloatToInt { from: op.ti.size * 8, to: t.size * 8, signed: matches!(ty.kind(), ty::Int(_)) }
                    }
                    CastKind::IntToFloat => {
                        CastL::IntToFloat { from: op.ti.size * 8, to: t.size * 8, signed: matches!(op.ty.kind(), ty::Int(_)) }
                    }
                    CastKind::FloatToFloat => CastL::FloatToFloat { from: op.ti.size * 8, to: t.size * 8 },
                    CastKind::PointerCoercion(pc, _) => {
                        use rustc_middle::ty::adjustment::PointerCoercion as PC;
                        match pc {
                            PC::Unsize => self.unsize_info(op.ty, *ty)?,
                            PC::ReifyFnPointer(_) => {
                                let ty::FnDef(d, args) = op.ty.kind() else { return Err("reify".into()) };
                                let i = Instance::resolve_for_fn_ptr(self.tcx, self.env, *d, args.no_bound_vars().unwrap()).ok_or("resolve fn ptr")?;
                                CastL::Fn(self.fid(i))
                            }
                            PC::ClosureFnPointer(_) => {
                                let ty::Closure(d, args) = op.ty.kind() else { return Err("closure ptr".into()) };
                                let i = Instance::resolve_closure(self.tcx, *d, args, ty::ClosureKind::FnOnce);
                                CastL::Fn(self.fid(i))
                            }
                            _ => CastL::Bytes(t.size),
                        }
                    }
                    _ => CastL::Bytes(t.size),
                };
                RvL::Cast(c, op)
            }
            Rvalue::BinaryOp(op, ab) => {
                let (a, b) = (self.oper(body, &ab.0)?, self.oper(body, &ab.1)?);
                let signed = matches!(a.ty.kind(), ty::Int(_));
                if *op == BinOp::Offset {
                    let stride = self.layout(a.ty.builtin_deref(true).unwrap()).size.bytes() as u32;
                    return Ok(RvL::Offset { a, b, stride });
                }
                if a.ti.size == 0 {
                    // comparison of units
                    return Ok(RvL::Use(OperL {
                        k: OpK::Const(ConstL::Scalar(Val::C(matches!(op, BinOp::Eq | BinOp::Le | BinOp::Ge) as u64))),
                        ti: self.ti(self.tcx.types.bool),
                        ty: self.tcx.types.bool,
                    }));
                }
                let Some(kind) = a.ti.scalar else {
                    return Err(format!("binop {op:?} on {:?}", a.ty));
                };
                let bits = self.num_bits(a.ti);
                let m = |op| RvL::Bin { op, a: a.clone(), b: b.clone(), bits, signed, kind };
                match op {
                    BinOp::Add | BinOp::AddUnchecked => m(Op::Add),
                    BinOp::Sub | BinOp::SubUnchecked => m(Op::Sub),
                    BinOp::Mul | BinOp::MulUnchecked => m(Op::Mul),
                    BinOp::Div => m(Op::Div),
                    BinOp::Rem => m(Op::Rem),
                    BinOp::BitXor => m(Op::Xor),
                    BinOp::BitAnd => m(Op::And),
                    BinOp::BitOr => m(Op::Or),
                    BinOp::Shl | BinOp::ShlUnchecked => m(Op::Shl),
                    BinOp::Shr | BinOp::ShrUnchecked => m(Op::Shr),
                    BinOp::Eq => m(Op::Eq),
                    BinOp::Lt => m(Op::Lt),
                    BinOp::Le => m(Op::Le),
                    BinOp::Ne => m(Op::Ne),
                    BinOp::Ge => m(Op::Ge),
                    BinOp::Gt => m(Op::Gt),
                    BinOp::Cmp => m(Op::Cmp),
                    BinOp::AddWithOverflow | BinOp::SubWithOverflow | BinOp::MulWithOverflow => {
                        let l = self.layout(dty);
                        if l.fields.offset(0).bytes() != 0 {
                            return Err("overflow pair layout".into());
                        }
                        let foff = l.fields.offset(1).bytes() as u32;
                        let (op, oop) = match op {
                            BinOp::AddWithOverflow => (Op::Add, Op::AddO),
                            BinOp::SubWithOverflow => (Op::Sub, Op::SubO),
                            _ => (Op::Mul, Op::MulO),
                        };
                        RvL::BinO { op, oop, a, b, bits, signed, foff }
                    }
                    BinOp::Offset => unreachable!(),
                }
            }
            Rvalue::UnaryOp(op, o) => {
                let o = self.oper(body, o)?;
                match op {
                    UnOp::Not => {
                        let bits = if o.ty.is_bool() { 1 } else { o.ti.size * 8 };
                        if o.ti.scalar.is_none() {
                            return Err("wide not".into());
                        }
                        RvL::Not(o, bits)
                    }
                    UnOp::Neg => {
                        let b = o.ti.size * 8;
                        let k = o.ti.scalar.ok_or("wide neg")?;
                        RvL::Neg(o, b, k)
                    }
                    UnOp::PtrMetadata => RvL::Meta(o),
                }
            }
            Rvalue::Discriminant(p) => {
                let pl = self.place(body, p)?;
                let d = self.discr_plan(pl.ty);
                RvL::Discr(pl, d)
            }
            Rvalue::Aggregate(k, ops) => {
                let l = self.layout(dty);
                let mut out = vec![];
                let mut tag = None;
                match &**k {
                    AggregateKind::Array(et) => {
                        let s = self.layout(*et).size.bytes() as u32;
                        for (i, o) in ops.iter().enumerate() {
                            out.push((i as u32 * s, self.oper(body, o)?));
                        }
                    }
                    AggregateKind::Adt(_, v, _, _, active) => {
                        let vl = match &l.variants {
                            Variants::Multiple { .. } => l.for_variant(&LCx(self), *v),
                            _ => l,
                        };
                        for (i, o) in ops.iter_enumerated() {
                            let fi = active.unwrap_or(FieldIdx::from_usize(i.as_usize()));
                            let at = if matches!(vl.fields, rustc_abi::FieldsShape::Primitive) { 0 } else { vl.fields.offset(fi.as_usize()).bytes() as u32 };
                            out.push((at, self.oper(body, o)?));
                        }
                        tag = self.tag_plan(l, *v);
                    }
                    AggregateKind::RawPtr(..) => {
                        let ops: Vec<_> = ops.iter().map(|o| self.oper(body, o)).collect::<Result<_, _>>()?;
                        out.push((0, ops[0].clone()));
                        if ops[1].ti.size > 0 {
                            out.push((8, ops[1].clone()));
                        }
                    }
                    _ => {
                        for (i, o) in ops.iter().enumerate() {
                            out.push((l.fields.offset(i).bytes() as u32, self.oper(body, o)?));
                        }
                    }
                }
                out.retain(|o| o.1.ti.size > 0);
                RvL::Agg(out, tag)
            }
            _ => return Err(format!("rvalue {r:?}")),
        })
    }

    pub fn callee(&self, fty: Ty<'tcx>) -> Result<CalleeL<'tcx>, String> {
        let ty::FnDef(d, args) = fty.kind() else { return Err("not fndef".into()) };
        let args = args.no_bound_vars().ok_or("bound vars")?;
        let tcx = self.tcx;
        let sig = tcx.fn_sig(*d).instantiate(tcx, args).skip_norm_wip();
        let sig = tcx.instantiate_bound_regions_with_erased(sig);
        if let Some(i) = tcx.intrinsic(*d) {
            let name = i.name.to_string();
            let tys = args.types().collect::<Vec<_>>();
            if sig.output().is_never() {
                return Ok(CalleeL::Panic(name));
            }
            return Ok(CalleeL::Intr(name, tys, Instance::new_raw(*d, args)));
        }
        if sig.output().is_never() {
            return Ok(CalleeL::Panic(tcx.def_path_str(*d)));
        }
        let inst = Instance::try_resolve(tcx, self.env, *d, args)
            .map_err(|_| "resolve error")?
            .ok_or_else(|| format!("unresolved {}", tcx.def_path_str(*d)))?;
        match inst.def {
            InstanceKind::Virtual(_, idx) => Ok(CalleeL::Virtual(idx as u32)),
            InstanceKind::Intrinsic(d) => {
                let name = tcx.item_name(d).to_string();
                Ok(CalleeL::Intr(name, inst.args.types().collect(), Instance::new_raw(d, inst.args)))
            }
            InstanceKind::Shim(ty::ShimKind::DropGlue(_, None)) => Ok(CalleeL::Nop),
            _ => Ok(CalleeL::Fn(self.fid(inst))),
        }
    }

    fn term(&self, body: &Body<'tcx>, t: &Terminator<'tcx>) -> Result<TermL<'tcx>, String> {
        Ok(match &t.kind {
            TerminatorKind::Goto { target, .. } => TermL::Goto(target.as_u32()),
            TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => {
                TermL::Goto(real_target.as_u32())
            }
            TerminatorKind::SwitchInt { discr, targets } => {
                let op = self.oper(body, discr)?;
                let bits = op.ti.size * 8;
                if op.ti.scalar.is_none() {
                    return Ok(TermL::Unsupported(format!("switch on {:?}", op.ty)));
                }
                TermL::Switch {
                    arms: targets.iter().map(|(v, b)| (v as u64, b.as_u32())).collect(),
                    other: targets.otherwise().as_u32(),
                    op,
                    bits,
                }
            }
            TerminatorKind::Return => TermL::Return,
            TerminatorKind::Unreachable | TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => {
                TermL::Unreachable
            }
            TerminatorKind::Drop { place, target, .. } => {
                let pl = self.place(body, place)?;
                let dynamic = matches!(pl.ty.kind(), ty::Dynamic(..));
                let glue = if dynamic {
                    None
                } else {
                    let i = Instance::resolve_drop_glue(self.tcx, pl.ty);
                    match i.def {
                        InstanceKind::Shim(ty::ShimKind::DropGlue(_, None)) => None,
                        _ => Some(self.fid(i)),
                    }
                };
                TermL::Drop { place: pl, glue, target: target.as_u32(), dynamic }
            }
            TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                let fty = func.ty(&body.local_decls, self.tcx);
                let fty = self.tcx.erase_and_anonymize_regions(fty);
                let callee = match fty.kind() {
                    ty::FnDef(..) => match self.callee(fty) {
                        Ok(c) => c,
                        Err(e) => return Ok(TermL::Unsupported(e)),
                    },
                    _ => CalleeL::Ptr(self.oper(body, func)?),
                };
                let mut a = vec![];
                for x in args.iter() {
                    match self.oper(body, &x.node) {
                        Ok(o) => a.push(o),
                        Err(e) => {
                            if let CalleeL::Panic(_) = callee {
                                continue;
                            }
                            return Ok(TermL::Unsupported(e));
                        }
                    }
                }
                TermL::Call {
                    callee,
                    args: a,
                    dest: self.place(body, destination)?,
                    target: target.map(|b| b.as_u32()),
                    sp: *fn_span,
                }
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => TermL::Assert {
                cond: self.oper(body, cond)?,
                expected: *expected,
                target: target.as_u32(),
                msg: format!("{}", assert_name(msg)),
            },
            k => TermL::Unsupported(format!("terminator {k:?}")),
        })
    }
}

fn assert_name(m: &AssertKind<Operand<'_>>) -> &'static str {
    match m {
        AssertKind::BoundsCheck { .. } => "index out of bounds",
        AssertKind::Overflow(op, ..) => match op {
            BinOp::Add => "add overflow",
            BinOp::Sub => "subtract overflow",
            BinOp::Mul => "multiply overflow",
            BinOp::Shl => "shift-left overflow",
            BinOp::Shr => "shift-right overflow",
            BinOp::Div => "division overflow",
            BinOp::Rem => "remainder overflow",
            _ => "arithmetic overflow",
        },
        AssertKind::OverflowNeg(_) => "negation overflow",
        AssertKind::DivisionByZero(_) => "division by zero",
        AssertKind::RemainderByZero(_) => "remainder by zero",
        _ => "assertion",
    }
}

pub struct LCx<'a, 'tcx>(pub &'a Lower<'tcx>);
impl<'a, 'tcx> rustc_middle::ty::layout::HasTyCtxt<'tcx> for LCx<'a, 'tcx> {
    fn tcx(&self) -> TyCtxt<'tcx> {
        self.0.tcx
    }
}
impl<'a, 'tcx> rustc_abi::HasDataLayout for LCx<'a, 'tcx> {
    fn data_layout(&self) -> &rustc_abi::TargetDataLayout {
        &self.0.tcx.data_layout
    }
}
impl<'a, 'tcx> rustc_middle::ty::layout::HasTypingEnv<'tcx> for LCx<'a, 'tcx> {
    fn typing_env(&self) -> ty::TypingEnv<'tcx> {
        self.0.env
    }
}

/// weak topological order: nested components give every block a position path
fn wto(body: &Body<'_>) -> (Vec<Vec<u32>>, Vec<bool>) {
    let n = body.basic_blocks.len();
    let mut succ: Vec<Vec<usize>> = vec![vec![]; n];
    for (b, d) in body.basic_blocks.iter_enumerated() {
        if d.is_cleanup {
            continue;
        }
        for s in d.terminator().successors() {
            if !body.basic_blocks[s].is_cleanup {
                succ[b.as_usize()].push(s.as_usize());
            }
        }
    }
    // rpo numbers for deterministic order
    let mut order = vec![];
    let mut seen = vec![false; n];
    let mut st = vec![(0usize, 0usize)];
    seen[0] = true;
    while let Some((b, i)) = st.pop() {
        if i < succ[b].len() {
            st.push((b, i + 1));
            let s = succ[b][i];
            if !seen[s] {
                seen[s] = true;
                st.push((s, 0));
            }
        } else {
            order.push(b);
        }
    }
    order.reverse();
    let mut rpo = vec![usize::MAX; n];
    for (i, &b) in order.iter().enumerate() {
        rpo[b] = i;
    }
    let mut paths: Vec<Vec<u32>> = vec![vec![]; n];
    let mut headers = vec![false; n];
    fn rec(
        nodes: &[usize],
        succ: &[Vec<usize>],
        rpo: &[usize],
        skip_header: Option<usize>,
        prefix: &[u32],
        paths: &mut Vec<Vec<u32>>,
        headers: &mut Vec<bool>,
    ) {
        let inset: std::collections::HashSet<usize> = nodes.iter().cloned().collect();
        // Tarjan SCC on nodes, ignoring edges into skip_header
        let mut index = 0usize;
        let mut idx: HashMap<usize, usize> = HashMap::new();
        let mut low: HashMap<usize, usize> = HashMap::new();
        let mut onst: std::collections::HashSet<usize> = Default::default();
        let mut stack = vec![];
        let mut sccs: Vec<Vec<usize>> = vec![];
        let mut sorted = nodes.to_vec();
        sorted.sort_by_key(|b| rpo[*b]);
        for &r in &sorted {
            if idx.contains_key(&r) {
                continue;
            }
            let mut work = vec![(r, 0usize)];
            idx.insert(r, index);
            low.insert(r, index);
            index += 1;
            stack.push(r);
            onst.insert(r);
            while let Some((v, i)) = work.pop() {
                if i < succ[v].len() {
                    work.push((v, i + 1));
                    let w = succ[v][i];
                    if Some(w) == skip_header || !inset.contains(&w) {
                        continue;
                    }
                    if !idx.contains_key(&w) {
                        idx.insert(w, index);
                        low.insert(w, index);
                        index += 1;
                        stack.push(w);
                        onst.insert(w);
                        work.push((w, 0));
                    } else if onst.contains(&w) {
                        let l = low[&v].min(idx[&w]);
                        low.insert(v, l);
                    }
                } else {
                    if let Some(&(p, _)) = work.last() {
                        let l = low[&p].min(low[&v]);
                        low.insert(p, l);
                    }
                    if low[&v] == idx[&v] {
                        let mut c = vec![];
                        loop {
                            let w = stack.pop().unwrap();
                            onst.remove(&w);
                            c.push(w);
                            if w == v {
                                break;
                            }
                        }
                        sccs.push(c);
                    }
                }
            }
        }
        sccs.reverse(); // topological order
        for (pos, c) in sccs.iter().enumerate() {
            let mut p = prefix.to_vec();
            p.push(pos as u32);
            let selfloop = c.len() == 1 && succ[c[0]].contains(&c[0]) && Some(c[0]) != skip_header;
            if c.len() == 1 && !selfloop {
                paths[c[0]] = p;
            } else {
                let h = *c.iter().min_by_key(|b| rpo[**b]).unwrap();
                headers[h] = true;
                rec(c, succ, rpo, Some(h), &p, paths, headers);
            }
        }
    }
    rec(&order, &succ, &rpo, None, &[], &mut paths, &mut headers);
    (paths, headers)
}


/// backward may-liveness of locals at block entry; address-taken locals count as always live
fn liveness<'tcx>(body: &Body<'tcx>, taken: &[bool]) -> Vec<Vec<bool>> {
    use rustc_middle::mir::visit::{MutatingUseContext as M, PlaceContext, Visitor};
    struct V {
        uses: Vec<usize>,
        defs: Vec<usize>,
    }
    impl<'tcx> Visitor<'tcx> for V {
        fn visit_local(&mut self, l: Local, c: PlaceContext, _: Location) {
            match c {
                PlaceContext::NonUse(_) => {}
                PlaceContext::MutatingUse(M::Store | M::Call) => self.defs.push(l.as_usize()),
                _ => self.uses.push(l.as_usize()),
            }
        }
    }
    let n = body.local_decls.len();
    let nb = body.basic_blocks.len();
    let mut ge = vec![vec![false; n]; nb];
    let mut ki = vec![vec![false; n]; nb];
    for (bi, bb) in body.basic_blocks.iter_enumerated() {
        let b = bi.as_usize();
        let mut step = |v: V, g: &mut Vec<bool>, k: &mut Vec<bool>| {
            for u in v.uses {
                if !k[u] {
                    g[u] = true;
                }
            }
            for d in v.defs {
                k[d] = true;
            }
        };
        for (i, s) in bb.statements.iter().enumerate() {
            let mut v = V { uses: vec![], defs: vec![] };
            v.visit_statement(s, Location { block: bi, statement_index: i });
            if let StatementKind::StorageDead(l) | StatementKind::StorageLive(l) = &s.kind {
                v.defs.push(l.as_usize());
            }
            step(v, &mut ge[b], &mut ki[b]);
        }
        let mut v = V { uses: vec![], defs: vec![] };
        v.visit_terminator(bb.terminator(), Location { block: bi, statement_index: bb.statements.len() });
        if let TerminatorKind::Return = bb.terminator().kind {
            v.uses.push(0);
        }
        step(v, &mut ge[b], &mut ki[b]);
    }
    let mut live = ge.clone();
    loop {
        let mut ch = false;
        for bi in body.basic_blocks.indices().rev() {
            let b = bi.as_usize();
            for s in body.basic_blocks[bi].terminator().successors() {
                if body.basic_blocks[s].is_cleanup {
                    continue;
                }
                for l in 0..n {
                    if live[s.as_usize()][l] && !ki[b][l] && !live[b][l] {
                        live[b][l] = true;
                        ch = true;
                    }
                }
            }
        }
        if !ch {
            break;
        }
    }
    for b in live.iter_mut() {
        for l in 0..n {
            b[l] |= taken[l];
        }
    }
    live
}
