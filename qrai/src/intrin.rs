//! Transfer functions of the compiler intrinsics.
use crate::guard;
use crate::interp::*;
use crate::lower::*;
use crate::val::*;
use rustc_middle::ty::{self, Instance, Ty};

fn f1(name: &str) -> Option<fn(f64) -> f64> {
    Some(match name {
        "sqrtf64" | "sqrtf32" | "sqrt" => f64::sqrt,
        "floorf64" | "floorf32" | "floor" => f64::floor,
        "ceilf64" | "ceilf32" | "ceil" => f64::ceil,
        "truncf64" | "truncf32" | "trunc" => f64::trunc,
        "roundf64" | "roundf32" | "round" => f64::round,
        "round_ties_even_f64" | "round_ties_even_f32" | "rintf64" => f64::round_ties_even,
        "fabsf64" | "fabsf32" | "fabs" => f64::abs,
        _ => return None,
    })
}

impl<'tcx> Engine<'tcx> {
    pub fn intrinsic(
        &self,
        st: &mut State<'tcx>,
        client: &mut dyn Client<'tcx>,
        name: &str,
        tys: &[Ty<'tcx>],
        inst: Instance<'tcx>,
        args: &[OperL<'tcx>],
        dest: &PlaceL<'tcx>,
        target: Option<u32>,
    ) -> R<Step<'tcx>> {
        let d = &self.dom;
        let ti0 = tys.first().filter(|t| !t.is_never()).and_then(|t| {
            if self.lo.is_sized(*t) { Some(self.lo.ti(*t)) } else { None }
        });
        let size0 = ti0.map_or(0, |t| t.size);
        let bits0 = size0 * 8;
        let signed0 = tys.first().map_or(false, |t| matches!(t.kind(), ty::Int(_)));
        let k0 = ti0.and_then(|t| t.scalar);
        let sv = |st: &State<'tcx>, i: usize| self.sval(st, &args[i]);
        let wide = ti0.map_or(false, |t| t.size > 8 && tys[0].is_integral());
        if wide && matches!(name, "wrapping_add" | "wrapping_sub" | "wrapping_mul" | "ctlz" | "cttz" | "ctpop" | "exact_div") {
            return unsup(format!("128-bit {name}"));
        }
        let res: Option<Val> = match name {
            "size_of" | "min_align_of" | "align_of" | "pref_align_of" => {
                let t = self.lo.ti(tys[0]);
                Some(Val::C(if name == "size_of" { t.size } else { t.align } as u64))
            }
            "size_of_val" | "min_align_of_val" | "align_of_val" => {
                let sz = name == "size_of_val";
                let t = tys[0];
                if self.lo.is_sized(t) {
                    let t = self.lo.ti(t);
                    Some(Val::C(if sz { t.size } else { t.align } as u64))
                } else {
                    match t.kind() {
                        ty::Slice(e) => {
                            let e = self.lo.ti(*e);
                            if sz {
                                let n = self.smeta(st, &args[0])?;
                                Some(d.binop(Op::Mul, &n, &Val::C(e.size as u64), 64, false))
                            } else {
                                Some(Val::C(e.align as u64))
                            }
                        }
                        ty::Str => Some(if sz { self.smeta(st, &args[0])? } else { Val::C(1) }),
                        ty::Dynamic(..) => {
                            let Val::Ptr(Base::VT(v), _) = self.smeta(st, &args[0])? else { return unsup("dyn size") };
                            let (ty, _) = self.lo.vts.borrow()[v as usize];
                            let l = self.lo.layout(ty);
                            Some(Val::C(if sz { l.size.bytes() } else { l.align.bytes() }))
                        }
                        _ => return unsup("size_of_val"),
                    }
                }
            }
            "needs_drop" => Some(Val::C(tys[0].needs_drop(self.lo.tcx, self.lo.env) as u64)),
            "assert_inhabited" | "assert_zero_valid" | "assert_mem_uninitialized_valid" | "assume" | "cold_path"
            | "forget" | "assert_unsafe_precondition" | "prefetch_read_data" => None,
            "likely" | "unlikely" | "black_box" => {
                let v = self.ovals(st, &args[0])?;
                return self.finish(st, dest, target, v);
            }
            "ub_checks" | "contract_checks" => Some(Val::C(0)),
            "overflow_checks" => Some(Val::C(1)),
            "is_val_statically_known" => Some(Val::C(0)),
            "transmute" | "transmute_unchecked" | "read_via_copy" | "volatile_load" | "unaligned_volatile_load"
            | "write_via_move" | "volatile_store" => match name {
                "transmute" | "transmute_unchecked" => {
                    let v = self.ovals(st, &args[0])?;
                    return self.finish(st, dest, target, v);
                }
                "write_via_move" | "volatile_store" => {
                    let p = sv(st, 0)?;
                    let v = self.ovals(st, &args[1])?;
                    if args[1].ti.size > 0 {
                        let l = self.ptr_loc(&p)?;
                        self.put(st, &l, args[1].ti, v)?;
                    }
                    None
                }
                _ => {
                    let p = sv(st, 0)?;
                    if dest.ti.size == 0 {
                        None
                    } else {
                        let l = self.ptr_loc(&p)?;
                        if dest.ti.scalar.is_some() {
                            Some(self.load(st, &l, dest.ti.size)?)
                        } else {
                            let v = self.loc_vals(st, &l, dest.ti)?;
                            return self.finish(st, dest, target, v);
                        }
                    }
                }
            },
            "offset" | "arith_offset" | "ptr_offset" => {
                let (p, n) = (sv(st, 0)?, sv(st, 1)?);
                let pt = if name == "offset" { tys[0].builtin_deref(true).unwrap_or(tys[0]) } else { tys[0] };
                let s = self.lo.ti(pt).size;
                Some(self.ptr_off(st, &p, &n, s)?)
            }
            "ptr_offset_from" | "ptr_offset_from_unsigned" => {
                let (a, b) = (sv(st, 0)?, sv(st, 1)?);
                let s = size0.max(1) as i64;
                Some(match (&a, &b) {
                    (Val::Ptr(x, o), Val::Ptr(y, p)) if x == y => Val::C(((o - p) / s) as u64),
                    (Val::C(x), Val::C(y)) => Val::C((x.wrapping_sub(*y) as i64 / s) as u64),
                    (Val::SPtr(x), Val::Ptr(y, p)) if x.0 == *y => {
                        let df = d.binop(Op::Sub, &x.1, &Val::C(*p as u64), 64, true);
                        d.binop(Op::Div, &df, &Val::C(s as u64), 64, true)
                    }
                    _ => return unsup(format!("ptr diff {a:?} {b:?}")),
                })
            }
            "slice_get_unchecked" => {
                // (ptr to slice, index) -> pointer to element
                let p = self.first_word(st, &args[0])?;
                let n = sv(st, 1)?;
                let s = match dest.ty.builtin_deref(true) {
                    Some(e) => self.lo.ti(e).size,
                    None => return unsup("slice_get_unchecked"),
                };
                Some(self.ptr_off(st, &p, &n, s)?)
            }
            "aggregate_raw_ptr" => {
                let a = sv(st, 0)?;
                let mut v = vec![(0, 8, a)];
                if args[1].ti.size > 0 {
                    v.push((8, 8, sv(st, 1)?));
                }
                return self.finish(st, dest, target, v);
            }
            "ptr_metadata" => {
                if dest.ti.size == 0 { None } else { Some(self.smeta(st, &args[0])?) }
            }
            "ptr_mask" => {
                let (p, m) = (sv(st, 0)?, sv(st, 1)?);
                match (p, m) {
                    (p, Val::C(u64::MAX)) => Some(p),
                    _ => return unsup("ptr_mask"),
                }
            }
            "copy" | "copy_nonoverlapping" | "volatile_copy_memory" | "volatile_copy_nonoverlapping_memory" => {
                let (s, t, n) = (sv(st, 0)?, sv(st, 1)?, sv(st, 2)?);
                let (s, t) = if name.starts_with("volatile") { (t, s) } else { (s, t) };
                self.memcpy(st, &s, &t, &n, size0)?;
                None
            }
            "write_bytes" | "volatile_set_memory" => {
                let (p, v, n) = (sv(st, 0)?, sv(st, 1)?, sv(st, 2)?);
                let Val::C(n) = guard::reduce_val(&st.guard, &n) else { return unsup("memset of abstract length") };
                let len = n as u32 * size0;
                if len > 0 {
                    let Val::Ptr(b, o) = p else { return unsup("memset through abstract pointer") };
                    let bs = self.size_of_base(st, b).unwrap_or(0);
                    if o < 0 || o as u64 + len as u64 > bs as u64 {
                        return unsup("memset out of bounds");
                    }
                    self.store_mut(st, b)?.fill(d, o as u32, len, &v);
                }
                None
            }
            "compare_bytes" => {
                let (a, b, n) = (sv(st, 0)?, sv(st, 1)?, sv(st, 2)?);
                let Val::C(n) = guard::reduce_val(&st.guard, &n) else { return unsup("memcmp length") };
                let (x, y) = (self.read_bytes(st, &a, n)?, self.read_bytes(st, &b, n)?);
                let mut r = Val::C(0);
                for i in (0..n as usize).rev() {
                    let lt = d.binop(Op::Cmp, &x[i], &y[i], 8, false);
                    let lt = d.int_cast(&lt, 8, 32, true);
                    let eq = d.binop(Op::Eq, &x[i], &y[i], 8, false);
                    r = match d.ite(&eq, &r, &lt, d.max_dims) {
                        Some(v) => v,
                        None => Val::Top,
                    };
                }
                Some(r)
            }
            "raw_eq" => {
                let (a, b) = (sv(st, 0)?, sv(st, 1)?);
                let (x, y) = (self.read_bytes(st, &a, size0 as u64)?, self.read_bytes(st, &b, size0 as u64)?);
                let mut r = Val::C(1);
                for i in 0..x.len() {
                    let e = d.binop(Op::Eq, &x[i], &y[i], 8, false);
                    r = d.binop(Op::And, &r, &e, 8, false);
                }
                Some(r)
            }
            "wrapping_add" | "unchecked_add" => Some(d.binop(Op::Add, &sv(st, 0)?, &sv(st, 1)?, bits0, signed0)),
            "wrapping_sub" | "unchecked_sub" => Some(d.binop(Op::Sub, &sv(st, 0)?, &sv(st, 1)?, bits0, signed0)),
            "wrapping_mul" | "unchecked_mul" => Some(d.binop(Op::Mul, &sv(st, 0)?, &sv(st, 1)?, bits0, signed0)),
            "exact_div" | "unchecked_div" => Some(d.binop(Op::Div, &sv(st, 0)?, &sv(st, 1)?, bits0, signed0)),
            "unchecked_rem" => Some(d.binop(Op::Rem, &sv(st, 0)?, &sv(st, 1)?, bits0, signed0)),
            "saturating_add" => Some(d.binop(Op::SatAdd, &sv(st, 0)?, &sv(st, 1)?, bits0, signed0)),
            "saturating_sub" => Some(d.binop(Op::SatSub, &sv(st, 0)?, &sv(st, 1)?, bits0, signed0)),
            "unchecked_shl" | "unchecked_shr" => {
                let op = if name.ends_with('l') { Op::Shl } else { Op::Shr };
                Some(self.bin(op, &sv(st, 0)?, &sv(st, 1)?, bits0, signed0, SK::Int, args[1].ti.size * 8)?)
            }
            "disjoint_bitor" => Some(d.binop(Op::Or, &sv(st, 0)?, &sv(st, 1)?, bits0, signed0)),
            "add_with_overflow" | "sub_with_overflow" | "mul_with_overflow" => {
                let (op, oo) = match &name[..3] {
                    "add" => (Op::Add, Op::AddO),
                    "sub" => (Op::Sub, Op::SubO),
                    _ => (Op::Mul, Op::MulO),
                };
                if wide {
                    return unsup("128-bit overflow arithmetic");
                }
                let (a, b) = (sv(st, 0)?, sv(st, 1)?);
                let foff = self.lo.layout(dest.ty).fields.offset(1).bytes() as u32;
                let v = vec![
                    (0, size0 as u8, d.binop(op, &a, &b, bits0, signed0)),
                    (foff, 1, d.binop(oo, &a, &b, bits0, signed0)),
                ];
                return self.finish(st, dest, target, v);
            }
            "three_way_compare" => Some(d.binop(Op::Cmp, &sv(st, 0)?, &sv(st, 1)?, bits0, signed0)),
            "rotate_left" | "rotate_right" => {
                let (v, n) = (sv(st, 0)?, sv(st, 1)?);
                let Val::C(n) = n else { return unsup("rotate by abstract amount") };
                let n = (n % bits0 as u64) as u32;
                let l = if name == "rotate_left" { n } else { (bits0 - n) % bits0 };
                if l == 0 {
                    Some(v)
                } else {
                    let a = d.binop(Op::Shl, &v, &Val::C(l as u64), bits0, false);
                    let b = d.binop(Op::Shr, &v, &Val::C((bits0 - l) as u64), bits0, false);
                    Some(d.binop(Op::Or, &a, &b, bits0, false))
                }
            }
            "ctpop" | "ctlz" | "ctlz_nonzero" | "cttz" | "cttz_nonzero" | "bswap" | "bitreverse" => {
                let v = sv(st, 0)?;
                let nm = name.to_string();
                let b = bits0;
                let f = move |x: u64| match nm.as_str() {
                    "ctpop" => x.count_ones() as u64,
                    "ctlz" | "ctlz_nonzero" => (x.leading_zeros() - (64 - b)) as u64,
                    "cttz" | "cttz_nonzero" => x.trailing_zeros().min(b) as u64,
                    "bswap" => x.swap_bytes() >> (64 - b),
                    _ => x.reverse_bits() >> (64 - b),
                };
                match &v {
                    Val::R(..) | Val::Top if name.starts_with("ct") => Some(d.rng(0, b as u64, 32)),
                    _ => Some(d.map1(&v, f, if name.starts_with("ct") { 32 } else { b })),
                }
            }
            "discriminant_value" => {
                let p = sv(st, 0)?;
                let l = self.ptr_loc(&p)?;
                let plan = self.lo.discr_plan(tys[0]);
                let v = self.discr(st, &l, &plan)?;
                Some(d.int_cast(&v, 64, dest.ti.size * 8, false))
            }
            "variant_count" => unreachable!(),
            "type_id" | "type_name" | "caller_location" => return unsup(name),
            "vtable_size" | "vtable_align" => {
                let Val::Ptr(Base::VT(v), _) = sv(st, 0)? else { return unsup("vtable") };
                let (ty, _) = self.lo.vts.borrow()[v as usize];
                let l = self.lo.layout(ty);
                Some(Val::C(if name == "vtable_size" { l.size.bytes() } else { l.align.bytes() }))
            }
            "select_unpredictable" => {
                let c = sv(st, 0)?;
                match guard::decide(d, &st.guard, &c) {
                    Some(b) => {
                        let v = self.ovals(st, &args[if b { 1 } else { 2 }])?;
                        return self.finish(st, dest, target, v);
                    }
                    None => {
                        let (a, b) = (self.ovals(st, &args[1])?, self.ovals(st, &args[2])?);
                        if a.len() == b.len() && (0..a.len()).all(|i| (a[i].0, a[i].1) == (b[i].0, b[i].1)) {
                            let mut v = vec![];
                            for i in 0..a.len() {
                                match d.ite(&c, &a[i].2, &b[i].2, d.max_dims) {
                                    Some(x) => v.push((a[i].0, a[i].1, x)),
                                    None => {
                                        let mut out = vec![];
                                        for (cc, vals) in [(c.clone(), a.clone()), (d.not(&c, 1), b.clone())] {
                                            if let Some(g) = guard::assume(d, &st.guard, &cc, "select") {
                                                let mut s2 = st.clone();
                                                s2.guard = g;
                                                self.finish(&mut s2, dest, target, vals)?;
                                                out.push(s2);
                                            }
                                        }
                                        return Ok(Step::Fork(out));
                                    }
                                }
                            }
                            return self.finish(st, dest, target, v);
                        }
                        return unsup("select");
                    }
                }
            }
            "const_eval_select" => {
                let fty = args[2].ty;
                let callee = self.lo.callee(fty).map_err(Halt::Unsup)?;
                let CalleeL::Fn(f) = callee else { return unsup(format!("const_eval_select {callee:?}")) };
                let a = Arg { ty: args[0].ty, ti: args[0].ti, vals: self.ovals(st, &args[0])? };
                let ty::Tuple(ts) = a.ty.kind() else { return unsup("const_eval_select tuple") };
                let l = self.lo.layout(a.ty);
                let mut av = vec![];
                for (i, t) in ts.iter().enumerate() {
                    let ti = self.lo.ti(t);
                    let o = l.fields.offset(i).bytes() as u32;
                    av.push(Arg {
                        ty: t,
                        ti,
                        vals: a
                            .vals
                            .iter()
                            .filter(|v| v.0 >= o && v.0 + v.1 as u32 <= o + ti.size)
                            .map(|v| (v.0 - o, v.1, v.2.clone()))
                            .collect(),
                    });
                }
                return self.call_fn(st, client, f, av, dest, target);
            }
            n if f1(n).is_some() && !args.is_empty() => {
                let f = f1(n).unwrap();
                Some(self.fun(n, f, &sv(st, 0)?, args[0].ti.size * 8))
            }
            "fmuladdf64" | "fmaf64" => {
                let (a, b, c) = (sv(st, 0)?, sv(st, 1)?, sv(st, 2)?);
                match (&a, &b, &c) {
                    (Val::C(a), Val::C(b), Val::C(c)) => {
                        Some(Val::C(f64::from_bits(*a).mul_add(f64::from_bits(*b), f64::from_bits(*c)).to_bits()))
                    }
                    _ => {
                        let m = self.fbin(Op::Mul, &a, &b, 64);
                        Some(self.fbin(Op::Add, &m, &c, 64))
                    }
                }
            }
            "minnumf64" | "maxnumf64" | "minnumf32" | "maxnumf32" => {
                let (a, b) = (sv(st, 0)?, sv(st, 1)?);
                match (&a, &b) {
                    (Val::C(x), Val::C(y)) if bits_is64(&args[0]) => {
                        let (x, y) = (f64::from_bits(*x), f64::from_bits(*y));
                        Some(Val::C(if name.starts_with("min") { x.min(y) } else { x.max(y) }.to_bits()))
                    }
                    _ => Some(Val::Top),
                }
            }
            _ => {
                let _ = k0;
                // intrinsics with a fallback body
                let tcx = self.lo.tcx;
                if tcx.intrinsic(inst.def_id()).map_or(false, |i| !i.must_be_overridden) && tcx.is_mir_available(inst.def_id()) {
                    let f = self.lo.fid(inst);
                    let mut av: Vec<Arg<'tcx>> = vec![];
                    for a in args {
                        av.push(Arg { ty: a.ty, ti: a.ti, vals: self.ovals(st, a)? });
                    }
                    return self.call_fn(st, client, f, av, dest, target);
                }
                return unsup(format!("intrinsic {name}"));
            }
        };
        let vals = match res {
            Some(v) if dest.ti.size > 0 => vec![(0, dest.ti.size as u8, v)],
            _ => vec![],
        };
        self.finish(st, dest, target, vals)
    }

    pub fn finish(&self, st: &mut State<'tcx>, dest: &PlaceL<'tcx>, target: Option<u32>, vals: Vec<(u32, u8, Val)>) -> R<Step<'tcx>> {
        if dest.ti.size > 0 {
            let l = self.place(st, dest)?;
            self.put(st, &l, dest.ti, vals)?;
        }
        let Some(t) = target else { return unsup("intrinsic diverges") };
        self.goto(st, t);
        Ok(Step::Next)
    }

    // ------------------------------------------------------------ floats
    fn fconst(&self, v: &Val, bits: u32) -> Option<f64> {
        match v {
            Val::C(c) => Some(if bits == 64 { f64::from_bits(*c) } else { f32::from_bits(*c as u32) as f64 }),
            _ => None,
        }
    }
    fn fput(&self, f: f64, bits: u32) -> Val {
        Val::C(if bits == 64 { f.to_bits() } else { (f as f32).to_bits() as u64 })
    }
    pub fn fun(&self, n: &str, f: fn(f64) -> f64, v: &Val, bits: u32) -> Val {
        if let Val::F(r) = v {
            return crate::real::rfn(n, r);
        }
        match self.fconst(v, bits) {
            Some(x) => self.fput(f(x), bits),
            None => Val::Top,
        }
    }
    pub fn fneg(&self, v: &Val, bits: u32) -> Val {
        match v {
            Val::C(c) => Val::C(c ^ (1u64 << (bits - 1))),
            Val::F(r) => crate::real::neg(r),
            _ => Val::Top,
        }
    }
    pub fn fbin(&self, op: Op, x: &Val, y: &Val, bits: u32) -> Val {
        if let (Some(a), Some(b)) = (self.fconst(x, bits), self.fconst(y, bits)) {
            let cmp = |b: bool| Val::C(b as u64);
            return match op {
                // f32 arithmetic through f64 is exact for + - * / after rounding once (double rounding is innocuous)
                Op::Add => self.fput(a + b, bits),
                Op::Sub => self.fput(a - b, bits),
                Op::Mul => self.fput(a * b, bits),
                Op::Div => self.fput(a / b, bits),
                Op::Rem => self.fput(a % b, bits),
                Op::Eq => cmp(a == b),
                Op::Ne => cmp(a != b),
                Op::Lt => cmp(a < b),
                Op::Le => cmp(a <= b),
                Op::Gt => cmp(a > b),
                Op::Ge => cmp(a >= b),
                _ => Val::Top,
            };
        }
        if matches!(x, Val::F(_)) || matches!(y, Val::F(_)) {
            if let Some(v) = crate::real::bin(&self.dom, op, x, y) {
                return v;
            }
        }
        if op.is_cmp() { Val::R(0, 1) } else { Val::Top }
    }
    pub fn int_to_float(&self, v: &Val, from: u32, to: u32, signed: bool) -> Val {
        match v {
            Val::C(c) => {
                let f = if signed { sext(*c, from) as f64 } else { *c as f64 };
                self.fput(f, to)
            }
            Val::B(_) | Val::T(_) => self.dom.map1(
                v,
                |c| {
                    let f = if signed { sext(c, from) as f64 } else { c as f64 };
                    if to == 64 { f.to_bits() } else { (f as f32).to_bits() as u64 }
                },
                to,
            ),
            Val::F(f) => Val::F(f.clone()),
            _ => Val::Top,
        }
    }
    pub fn float_to_int(&self, v: &Val, from: u32, to: u32, signed: bool) -> Val {
        match self.fconst(v, from) {
            Some(f) => {
                let r: u64 = if signed {
                    let (lo, hi) = (-(1i128 << (to - 1)), (1i128 << (to - 1)) - 1);
                    ((f as i128).clamp(lo, hi)) as u64
                } else {
                    (f as u128).min(mask(to) as u128) as u64
                };
                Val::C(r & mask(to))
            }
            None => match v {
                Val::F(r) => crate::real::to_int(r, signed),
                _ => self.dom.top(to),
            },
        }
    }
}

fn bits_is64(o: &OperL<'_>) -> bool {
    o.ti.size == 8
}
