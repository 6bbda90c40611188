//! Models of the compiler intrinsics that core and stdarch bottom out in.
use crate::bdd::{B, F, T};
use crate::dom::{Dom, SECRET};
use crate::exec::Ret;
use crate::interp::*;
use crate::mem::*;
use crate::word::{wconst, W};
use rustc_public::mir::mono::Instance;
use rustc_public::mir::BinOp;
use rustc_public::crate_def::CrateDefType;
use rustc_public::ty::*;
use std::rc::Rc;

pub enum Res {
    Val(Vec<Byte>),
    Many(Ret),
}

fn targ(info: &InstInfo, i: usize) -> R<Ty> {
    let a = info.inst.args();
    let mut k = 0;
    for x in &a.0 {
        if let GenericArgKind::Type(t) = x {
            if k == i {
                return Ok(*t);
            }
            k += 1;
        }
    }
    unsup(format!("generic argument {i} of {}", info.name))
}

impl Interp {
    /// (lane count, lane type, lane size, signed) of a vector type
    pub fn simd(&mut self, ty: Ty) -> R<(usize, Ty)> {
        if let Some(x) = self.sim_name_cache.get(&ty) {
            return Ok(*x);
        }
        let k = self.kind(ty);
        let r = match &*k {
            TyKind::RigidTy(RigidTy::Adt(d, args)) => {
                let fs = d.variants()[0].fields();
                let t = fs[0].ty_with_args(args);
                match &*self.kind(t) {
                    TyKind::RigidTy(RigidTy::Array(e, c)) => (c.eval_target_usize().map_err(|e| Stop::Unsup(format!("{e:?}")))? as usize, *e),
                    _ => return unsup(format!("vector type {ty}")),
                }
            }
            TyKind::RigidTy(RigidTy::Array(e, c)) => (c.eval_target_usize().map_err(|e| Stop::Unsup(format!("{e:?}")))? as usize, *e),
            _ => return unsup(format!("vector type {ty}")),
        };
        self.sim_name_cache.insert(ty, r);
        Ok(r)
    }
    fn lanes(&mut self, st: &mut State, ty: Ty, v: &[Byte]) -> R<(Vec<W>, usize, bool)> {
        let (n, e) = self.simd(ty)?;
        let es = self.size(e)?;
        let signed = self.int_ty(e).map(|x| x.1).unwrap_or(false);
        let mut out = vec![];
        for i in 0..n {
            out.push(self.word(st, &v[i * es..(i + 1) * es])?);
        }
        Ok((out, es, signed))
    }
    fn unlanes(&mut self, l: Vec<W>, es: usize, ty: Ty) -> R<Vec<Byte>> {
        let n = self.size(ty)?;
        let mut out = Vec::with_capacity(n);
        for w in l {
            let s = self.norm(w);
            out.extend(self.bytes_of(&s, es));
        }
        out.resize(n, Byte::U);
        Ok(out)
    }
    fn ret_ty(&mut self, info: &InstInfo) -> R<Ty> {
        match info.inst.fn_abi() {
            Ok(a) => Ok(a.ret.ty),
            Err(_) => unsup("return type"),
        }
    }
}

fn ctz(d: &mut Dom, w: &W) -> W {
    // number of trailing zeros, result on w.len() bits
    let n = w.len();
    let mut r = wconst(n as u128, n);
    for i in (0..n).rev() {
        let k = wconst(i as u128, n);
        r = d.wite(w[i], &k, &r);
    }
    r
}
fn pop(d: &mut Dom, w: &W) -> W {
    let n = w.len();
    let mut r = wconst(0, n);
    for b in w {
        let mut k = vec![F; n];
        k[0] = *b;
        r = d.wadd(&r, &k);
    }
    r
}

pub fn intrinsic(it: &mut Interp, st: &mut State, name: &str, info: &Rc<InstInfo>, args: &[Vec<Byte>], tys: &[Ty]) -> R<Option<Res>> {
    let v = |b: Vec<Byte>| Ok(Some(Res::Val(b)));
    if let Some(op) = name.strip_prefix("simd_") {
        return Ok(Some(Res::Val(simd(it, st, op, info, args, tys)?)));
    }
    match name {
        "size_of" => {
            let t = targ(info, 0)?;
            let n = it.size(t)?;
            v(it.usize_bytes(n as u64))
        }
        "align_of" | "min_align_of" => {
            let t = targ(info, 0)?;
            let n = it.lay(t)?.align;
            v(it.usize_bytes(n))
        }
        "size_of_val" | "align_of_val" | "min_align_of_val" => {
            let t = targ(info, 0)?;
            if let TyKind::RigidTy(RigidTy::Slice(_) | RigidTy::Str) = &*it.kind(t) {
                let e = it.elem_ty(t).unwrap();
                let l = it.lay(e)?;
                if name != "size_of_val" {
                    return v(it.usize_bytes(l.align));
                }
                let pb = it.pb;
                let n = it.sc(st, &args[0][pb..2 * pb])?;
                let n = it.scale(&n, l.size);
                return v(it.bytes_of(&n, pb));
            }
            if it.is_unsized(t)? {
                return unsup("size_of_val of a trait object");
            }
            let l = it.lay(t)?;
            v(it.usize_bytes(if name == "size_of_val" { l.size as u64 } else { l.align }))
        }
        "needs_drop" => {
            let t = targ(info, 0)?;
            let i = Instance::resolve_drop_in_place(t);
            v(it.bool_byte(if i.is_empty_shim() { F } else { T }))
        }
        "black_box" => v(args[0].clone()),
        "forget" => v(vec![]),
        "likely" | "unlikely" => v(args[0].clone()),
        "cold_path" | "assert_inhabited" | "assert_zero_valid" | "assert_mem_uninitialized_valid" | "prefetch_read_data" => v(vec![]),
        "assume" => {
            let c = it.word(st, &args[0])?[0];
            it.require(st, c, || "assume() of a condition that can be false".into())?;
            v(vec![])
        }
        "unreachable" => it.ub(st, "unreachable_unchecked reached"),
        "abort" | "abort_immediate" | "breakpoint" => {
            it.panic_event(st, "abort".into());
            Err(Stop::Dead)
        }
        "ub_checks" | "contract_checks" => v(it.bool_byte(F)),
        "overflow_checks" => {
            let o = it.overflow_checks;
            v(it.bool_byte(if o { T } else { F }))
        }
        "is_val_statically_known" => v(it.bool_byte(F)),
        "variant_count" => {
            let t = targ(info, 0)?;
            let n = match &*it.kind(t) {
                TyKind::RigidTy(RigidTy::Adt(d, _)) => d.variants().len(),
                _ => 0,
            };
            v(it.usize_bytes(n as u64))
        }
        "discriminant_value" => Ok(None),
        "transmute" | "transmute_unchecked" => v(args[0].clone()),
        "wrapping_add" | "wrapping_sub" | "wrapping_mul" | "unchecked_add" | "unchecked_sub" | "unchecked_mul" | "unchecked_div" | "unchecked_rem" | "exact_div"
        | "unchecked_shl" | "unchecked_shr" | "disjoint_bitor" => {
            let op = match name {
                "wrapping_add" => BinOp::Add,
                "wrapping_sub" => BinOp::Sub,
                "wrapping_mul" => BinOp::Mul,
                "unchecked_add" => BinOp::AddUnchecked,
                "unchecked_sub" => BinOp::SubUnchecked,
                "unchecked_mul" => BinOp::MulUnchecked,
                "unchecked_div" | "exact_div" => BinOp::Div,
                "unchecked_rem" => BinOp::Rem,
                "unchecked_shl" => BinOp::ShlUnchecked,
                "disjoint_bitor" => BinOp::BitOr,
                _ => BinOp::ShrUnchecked,
            };
            let r = it.binop(st, op, &args[0], &args[1], tys[0], tys[1])?;
            if name == "exact_div" {
                let m = it.binop(st, BinOp::Rem, &args[0], &args[1], tys[0], tys[1])?;
                let w = it.word(st, &m)?;
                let z = vec![F; w.len()];
                let e = it.d.weq(&w, &z);
                it.require(st, e, || "exact_div with a remainder".into())?;
            }
            v(r)
        }
        "add_with_overflow" | "sub_with_overflow" | "mul_with_overflow" => {
            let (n, signed) = it.int_ty(tys[0]).ok_or(Stop::Unsup("type".into()))?;
            let (a, b) = (it.sc(st, &args[0])?, it.sc(st, &args[1])?);
            let op = match name {
                "add_with_overflow" => BinOp::Add,
                "sub_with_overflow" => BinOp::Sub,
                _ => BinOp::Mul,
            };
            it.want_overflow = true;
            let r = it.arith(op, &a, &b, n, signed);
            it.want_overflow = false;
            let (r, o) = r?;
            let rt = it.ret_ty(info)?;
            let lay = it.lay(rt)?;
            let offs = it.field_offsets(&lay.shape, None)?;
            let mut out = vec![Byte::U; lay.size];
            let rb = it.bytes_of(&r, n / 8);
            out[offs[0]..offs[0] + n / 8].clone_from_slice(&rb);
            out[offs[1]] = it.bool_byte(o)[0].clone();
            v(out)
        }
        "saturating_add" | "saturating_sub" => {
            let (n, signed) = it.int_ty(tys[0]).ok_or(Stop::Unsup("type".into()))?;
            let (a, b) = (it.sc(st, &args[0])?, it.sc(st, &args[1])?);
            let add = name == "saturating_add";
            let (r, o) = it.arith(if add { BinOp::Add } else { BinOp::Sub }, &a, &b, n, signed)?;
            let rw = bits_of(&r, n, it);
            let sat: W = if !signed {
                vec![if add { T } else { F }; n]
            } else {
                let aw = bits_of(&a, n, it);
                let s = aw[n - 1];
                let mut w = vec![s ^ 1; n];
                w[n - 1] = s;
                w
            };
            let w = it.d.wite(o, &sat, &rw);
            let s = it.norm(w);
            v(it.bytes_of(&s, n / 8))
        }
        "integer_min" | "integer_max" => {
            let (n, signed) = it.int_ty(tys[0]).ok_or(Stop::Unsup("type".into()))?;
            let (a, b) = (it.sc(st, &args[0])?, it.sc(st, &args[1])?);
            let lt = it.cmp(BinOp::Lt, &b, &a, n, signed)?;
            let (aw, bw) = (bits_of(&a, n, it), bits_of(&b, n, it));
            let w = if name == "integer_min" { it.d.wite(lt, &bw, &aw) } else { it.d.wite(lt, &aw, &bw) };
            let s = it.norm(w);
            v(it.bytes_of(&s, n / 8))
        }
        "rotate_left" | "rotate_right" => {
            let w = it.word(st, &args[0])?;
            let n = w.len();
            let left = name == "rotate_left";
            let k = it.sc(st, &args[1])?;
            let r = match k {
                Sc::C(k) => {
                    let k = (k % n as u128) as usize;
                    Dom::rotl_c(&w, if left { k } else { (n - k) % n })
                }
                k => {
                    if !n.is_power_of_two() {
                        return unsup("rotation");
                    }
                    let s = bits_of(&k, args[1].len() * 8, it);
                    let lg = n.trailing_zeros() as usize;
                    it.d.barrel(&w, &s[..lg], |x, k| Dom::rotl_c(x, if left { k } else { n - k }))
                }
            };
            let s = it.norm(r);
            v(it.bytes_of(&s, n / 8))
        }
        "unchecked_funnel_shl" | "unchecked_funnel_shr" => {
            let hi = it.word(st, &args[0])?;
            let lo = it.word(st, &args[1])?;
            let n = hi.len();
            let mut cat = lo.clone();
            cat.extend_from_slice(&hi);
            let Sc::C(k) = it.sc(st, &args[2])? else { return unsup("funnel shift by a variable") };
            let k = k as usize;
            if k >= n {
                return it.ub(st, "unchecked funnel shift by too many bits");
            }
            let r: W = if name.ends_with("shl") { cat[n - k..2 * n - k].to_vec() } else { cat[k..k + n].to_vec() };
            let s = it.norm(r);
            v(it.bytes_of(&s, n / 8))
        }
        "bswap" => {
            let w = it.word(st, &args[0])?;
            let mut r = Vec::with_capacity(w.len());
            for c in w.chunks(8).rev() {
                r.extend_from_slice(c);
            }
            let s = it.norm(r);
            v(it.bytes_of(&s, args[0].len()))
        }
        "bitreverse" => {
            let mut w = it.word(st, &args[0])?;
            w.reverse();
            let s = it.norm(w);
            v(it.bytes_of(&s, args[0].len()))
        }
        "ctpop" | "cttz" | "cttz_nonzero" | "ctlz" | "ctlz_nonzero" => {
            let mut w = it.word(st, &args[0])?;
            let n = w.len();
            if name.ends_with("nonzero") {
                let z = vec![F; n];
                let e = it.d.weq(&w, &z);
                it.require(st, e ^ 1, || format!("{name} of zero"))?;
            }
            let r = if name == "ctpop" {
                pop(&mut it.d, &w)
            } else {
                if name.starts_with("ctlz") {
                    w.reverse();
                }
                // result needs enough bits: 8-bit values count up to 8
                ctz(&mut it.d, &w)
            };
            let mut r = r;
            r.resize(32.max(n), F);
            r.truncate(32);
            let s = it.norm(r);
            v(it.bytes_of(&s, 4))
        }
        "three_way_compare" => {
            let r = it.binop(st, BinOp::Cmp, &args[0], &args[1], tys[0], tys[1])?;
            v(r)
        }
        "select_unpredictable" => {
            let c = it.word(st, &args[0])?[0];
            let mut out = vec![];
            for i in 0..args[1].len() {
                match it.merge_byte(c, &args[1][i], &args[2][i]) {
                    Some(b) => out.push(b),
                    None => return unsup("select between pointers"),
                }
            }
            v(out)
        }
        "ptr_offset_from" | "ptr_offset_from_unsigned" => {
            let t = targ(info, 0)?;
            let es = it.size(t)?;
            let (a, b) = (it.sc(st, &args[0])?, it.sc(st, &args[1])?);
            let nb = it.pb * 8;
            match (&a, &b) {
                (Sc::P(p), Sc::P(q)) if p.alloc == q.alloc => {
                    let x = it.off_w(&p.off);
                    let y = it.off_w(&q.off);
                    let d = it.d.wsub(&x, &y);
                    let s = it.norm(d);
                    match s {
                        Sc::C(v0) => {
                            let d = sext(v0, nb);
                            if es == 0 || d % es as i128 != 0 {
                                return it.ub(st, "offset_from of pointers not a whole number of elements apart");
                            }
                            if name.ends_with("unsigned") && d < 0 {
                                return it.ub(st, "offset_from_unsigned with a negative distance");
                            }
                            v(it.bytes_of(&Sc::C((d / es as i128) as u128 & mask(nb)), nb / 8))
                        }
                        s => {
                            if !es.is_power_of_two() {
                                return unsup("offset_from");
                            }
                            let w = bits_of(&s, nb, it);
                            let k = es.trailing_zeros() as usize;
                            let r = Dom::shr_c(&w, k, w[nb - 1]);
                            let s = it.norm(r);
                            v(it.bytes_of(&s, nb / 8))
                        }
                    }
                }
                (Sc::P(_), Sc::P(_)) => it.ub(st, "offset_from of pointers into different objects"),
                _ => {
                    let (r, _) = it.arith(BinOp::Sub, &a, &b, nb, true)?;
                    match r {
                        Sc::C(x) if es > 0 => v(it.bytes_of(&Sc::C((sext(x, nb) / es as i128) as u128 & mask(nb)), nb / 8)),
                        _ => unsup("offset_from"),
                    }
                }
            }
        }
        "arith_offset" | "offset" => {
            let (p, k) = (it.sc(st, &args[0])?, it.sc(st, &args[1])?);
            let t = match it.pointee(tys[0]) {
                Some(t) => t,
                None => return unsup("offset type"),
            };
            let es = it.size(t)?;
            let r = it.ptr_offset(st, &p, &k, es, name == "offset", true)?;
            v(it.bytes_of(&r, it.pb))
        }
        "ptr_mask" => {
            let (p, m) = (it.sc(st, &args[0])?, it.sc(st, &args[1])?);
            match (&p, &m) {
                (Sc::P(q), Sc::C(m)) => {
                    let Off::C(o) = q.off else { return unsup("ptr_mask") };
                    let al = it.align_hint(q.alloc);
                    let inv = !*m & mask(it.pb * 8);
                    if inv + 1 > al as u128 || !(inv + 1).is_power_of_two() {
                        return unsup("ptr_mask below the object's alignment");
                    }
                    let r = Sc::P(Rc::new(Ptr { alloc: q.alloc, off: Off::C(o & !(inv as u64)) }));
                    v(it.bytes_of(&r, it.pb))
                }
                _ => unsup("ptr_mask"),
            }
        }
        "copy" | "copy_nonoverlapping" | "volatile_copy_memory" | "volatile_copy_nonoverlapping_memory" => {
            let t = targ(info, 0)?;
            let l = it.lay(t)?;
            let vol = name.starts_with("volatile");
            let (a, b) = if vol { (1, 0) } else { (0, 1) };
            let (src, dst, cnt) = (it.sc(st, &args[a])?, it.sc(st, &args[b])?, it.sc(st, &args[2])?);
            it.copy_mem(st, &src, &dst, &cnt, l.size, l.align, !name.contains("nonoverlapping"))?;
            v(vec![])
        }
        "write_bytes" | "volatile_set_memory" => {
            let t = targ(info, 0)?;
            let l = it.lay(t)?;
            let (dst, cnt) = (it.sc(st, &args[0])?, it.sc(st, &args[2])?);
            match it.scale(&cnt, l.size) {
                Sc::C(n) => {
                    let p = it.ptr_from(&dst);
                    let b = vec![args[1][0].clone(); n as usize];
                    it.write(st, &p, &b, l.align)?;
                    v(vec![])
                }
                _ => unsup("write_bytes of symbolic length"),
            }
        }
        "volatile_load" | "unaligned_volatile_load" | "read_via_copy" => {
            let t = targ(info, 0)?;
            let l = it.lay(t)?;
            let p = it.sc(st, &args[0])?;
            let p = it.ptr_from(&p);
            let r = it.read(st, &p, l.size, if name.starts_with("unaligned") { 1 } else { l.align })?;
            v(r)
        }
        "volatile_store" | "unaligned_volatile_store" | "write_via_move" | "nontemporal_store" => {
            let t = targ(info, 0)?;
            let l = it.lay(t)?;
            let p = it.sc(st, &args[0])?;
            let p = it.ptr_from(&p);
            it.write(st, &p, &args[1], if name.starts_with("unaligned") { 1 } else { l.align })?;
            v(vec![])
        }
        "compare_bytes" => {
            // -1/0/1 as i32; computed without branches
            let n = match it.sc(st, &args[2])? {
                Sc::C(n) => n as usize,
                _ => return unsup("compare_bytes of symbolic length"),
            };
            let (a, b) = (it.sc(st, &args[0])?, it.sc(st, &args[1])?);
            let (p, q) = (it.ptr_from(&a), it.ptr_from(&b));
            let (x, y) = (it.read(st, &p, n, 1)?, it.read(st, &q, n, 1)?);
            let mut sec = false;
            for z in x.iter().chain(&y) {
                if let Byte::S(s) = z {
                    sec |= s.bits.iter().any(|k| it.d.b.class(*k) & SECRET != 0);
                }
            }
            if sec {
                let pc = st.pc;
                let mut bits: Vec<B> = vec![];
                for z in x.iter().chain(&y) {
                    if let Byte::S(s) = z {
                        bits.extend(s.bits);
                    }
                }
                it.event(EK::SecretBranch, &st.clone(), pc, bits, "memcmp of secret data (time depends on the first difference)".into());
            }
            let mut lt = F;
            let mut gt = F;
            let mut eq = T;
            for i in 0..n {
                let xa = it.word(st, &x[i..i + 1])?;
                let ya = it.word(st, &y[i..i + 1])?;
                let l = it.d.wult(&xa, &ya);
                let g = it.d.wult(&ya, &xa);
                let l2 = it.d.and(eq, l);
                let g2 = it.d.and(eq, g);
                lt = it.d.or(lt, l2);
                gt = it.d.or(gt, g2);
                let e = it.d.weq(&xa, &ya);
                eq = it.d.and(eq, e);
            }
            let mut w = vec![lt; 32];
            w[0] = it.d.or(lt, gt);
            let s = it.norm(w);
            v(it.bytes_of(&s, 4))
        }
        "raw_eq" => {
            let t = targ(info, 0)?;
            let n = it.size(t)?;
            let (a, b) = (it.sc(st, &args[0])?, it.sc(st, &args[1])?);
            let (p, q) = (it.ptr_from(&a), it.ptr_from(&b));
            let (x, y) = (it.read(st, &p, n, 1)?, it.read(st, &q, n, 1)?);
            let mut eq = T;
            let mut bits: Vec<B> = vec![];
            for i in 0..n {
                let xa = it.word(st, &x[i..i + 1])?;
                let ya = it.word(st, &y[i..i + 1])?;
                bits.extend(&xa);
                bits.extend(&ya);
                let e = it.d.weq(&xa, &ya);
                eq = it.d.and(eq, e);
            }
            if n > 2 * it.pb && bits.iter().any(|k| it.d.b.class(*k) & SECRET != 0) {
                // lowered to memcmp above two words
                let pc = st.pc;
                it.event(EK::SecretBranch, &st.clone(), pc, bits, "memcmp of secret data (time depends on the first difference)".into());
            }
            v(it.bool_byte(eq))
        }
        "ptr_guaranteed_cmp" => v(vec![Byte::C(2)]),
        "const_eval_select" => {
            // arguments tuple, const fn, run-time fn
            let ft = tys[2];
            let (d, a) = match &*it.kind(ft) {
                TyKind::RigidTy(RigidTy::FnDef(d, a)) => (*d, a.clone()),
                _ => return unsup("const_eval_select"),
            };
            let i = Instance::resolve(d, &a).map_err(|e| Stop::Unsup(format!("{e:?}")))?;
            let (vals, ts) = match &*it.kind(tys[0]) {
                TyKind::RigidTy(RigidTy::Tuple(ts)) => {
                    let lay = it.lay(tys[0])?;
                    let offs = it.field_offsets(&lay.shape, None)?;
                    let mut o = vec![];
                    for (k, t) in ts.iter().enumerate() {
                        let n = it.size(*t)?;
                        o.push(args[0][offs[k]..offs[k] + n].to_vec());
                    }
                    (o, ts.clone())
                }
                _ => return unsup("const_eval_select"),
            };
            let s = std::mem::replace(st, State { mem: Default::default(), pc: F });
            Ok(Some(Res::Many(it.call(s, i, vals, ts, true))))
        }
        "caller_location" => {
            let rt = it.ret_ty(info)?;
            let _ = rt;
            let a = match it.locdummy {
                Some(a) => a,
                None => {
                    let a = it.next;
                    it.next += 1;
                    it.aligns.borrow_mut().insert(a, 16);
                    it.globals.insert(a, Rc::new(Alloc { bytes: vec![Byte::C(0); 64], align: 16, kind: Kind::Const, len: None, hot: false }));
                    it.locdummy = Some(a);
                    a
                }
            };
            v(it.mkptr(a, 0))
        }
        "typed_swap_nonoverlapping" => {
            let t = targ(info, 0)?;
            let l = it.lay(t)?;
            let (a, b) = (it.sc(st, &args[0])?, it.sc(st, &args[1])?);
            let (p, q) = (it.ptr_from(&a), it.ptr_from(&b));
            let x = it.read(st, &p, l.size, l.align)?;
            let y = it.read(st, &q, l.size, l.align)?;
            it.write(st, &p, &y, l.align)?;
            it.write(st, &q, &x, l.align)?;
            v(vec![])
        }
        _ => Ok(None),
    }
}

fn simd(it: &mut Interp, st: &mut State, op: &str, info: &Rc<InstInfo>, args: &[Vec<Byte>], tys: &[Ty]) -> R<Vec<Byte>> {
    let bin = |x: &mut Interp, st: &mut State, f: &mut dyn FnMut(&mut Dom, &W, &W, bool) -> W| -> R<Vec<Byte>> {
        let (a, es, s) = x.lanes(st, tys[0], &args[0])?;
        let (b, _, _) = x.lanes(st, tys[1], &args[1])?;
        let mut o = vec![];
        for i in 0..a.len() {
            o.push(f(&mut x.d, &a[i], &b[i], s));
        }
        x.unlanes(o, es, tys[0])
    };
    match op {
        "and" => bin(it, st, &mut |d, a, b, _| d.wand(a, b)),
        "or" => bin(it, st, &mut |d, a, b, _| d.wor(a, b)),
        "xor" => bin(it, st, &mut |d, a, b, _| d.wxor(a, b)),
        "add" => bin(it, st, &mut |d, a, b, _| d.wadd(a, b)),
        "sub" => bin(it, st, &mut |d, a, b, _| d.wsub(a, b)),
        "mul" => bin(it, st, &mut |d, a, b, _| d.wmul(a, b)),
        "shl" | "shr" => {
            let (a, es, s) = it.lanes(st, tys[0], &args[0])?;
            let (b, _, _) = it.lanes(st, tys[1], &args[1])?;
            let mut o = vec![];
            for i in 0..a.len() {
                let n = es * 8;
                let (x, y) = (it.norm(a[i].clone()), it.norm(b[i].clone()));
                let (r, over) = it.shift(op == "shl", &x, &y, n, n, s);
                it.require(st, over ^ 1, || "vector shift by too many bits".into())?;
                o.push(bits_of(&r, n, it));
            }
            it.unlanes(o, es, tys[0])
        }
        "neg" => {
            let (a, es, _) = it.lanes(st, tys[0], &args[0])?;
            let o = a.iter().map(|x| it.d.wneg(x)).collect();
            it.unlanes(o, es, tys[0])
        }
        "bswap" => {
            let (a, es, _) = it.lanes(st, tys[0], &args[0])?;
            let o = a.iter().map(|x| x.chunks(8).rev().flatten().copied().collect()).collect();
            it.unlanes(o, es, tys[0])
        }
        "bitreverse" => {
            let (a, es, _) = it.lanes(st, tys[0], &args[0])?;
            let o = a.iter().map(|x| x.iter().rev().copied().collect()).collect();
            it.unlanes(o, es, tys[0])
        }
        "ctpop" | "ctlz" | "cttz" => {
            let (a, es, _) = it.lanes(st, tys[0], &args[0])?;
            let mut o = vec![];
            for w in a {
                let n = w.len();
                let mut acc = vec![F; n];
                let mut on = T; // no one-bit met yet
                let seq: Vec<B> = if op == "ctlz" { w.iter().rev().copied().collect() } else { w };
                for b in seq {
                    let x = if op == "ctpop" {
                        b
                    } else {
                        on = it.d.and(on, b ^ 1);
                        on
                    };
                    let mut one = vec![F; n];
                    one[0] = x;
                    acc = it.d.wadd(&acc, &one);
                }
                o.push(acc);
            }
            it.unlanes(o, es, tys[0])
        }
        "funnel_shl" | "funnel_shr" => {
            let (a, es, _) = it.lanes(st, tys[0], &args[0])?;
            let (b, _, _) = it.lanes(st, tys[1], &args[1])?;
            let (c, _, _) = it.lanes(st, tys[2], &args[2])?;
            let mut o = vec![];
            for i in 0..a.len() {
                let n = es * 8;
                let Some(k) = crate::word::wval(&c[i]) else { return unsup("vector funnel shift by a variable") };
                let k = k as usize % n;
                // a is the upper half
                let mut w = b[i].clone();
                w.extend(&a[i]);
                let from = if op == "funnel_shr" { k } else { n - k };
                o.push(w[from..from + n].to_vec());
            }
            it.unlanes(o, es, tys[0])
        }
        "saturating_add" | "saturating_sub" => {
            let (a, es, s) = it.lanes(st, tys[0], &args[0])?;
            let (b, _, _) = it.lanes(st, tys[1], &args[1])?;
            let n = es * 8;
            let mut o = vec![];
            for i in 0..a.len() {
                let (mut x, mut y) = (a[i].clone(), b[i].clone());
                x.push(if s { a[i][n - 1] } else { F });
                y.push(if s { b[i][n - 1] } else { F });
                let r = if op == "saturating_add" { it.d.wadd(&x, &y) } else { it.d.wsub(&x, &y) };
                let (over, sat) = if s {
                    let neg = r[n];
                    let mut v = vec![neg ^ 1; n];
                    v[n - 1] = neg;
                    (it.d.xor(r[n], r[n - 1]), v)
                } else {
                    (r[n], vec![if op == "saturating_add" { T } else { F }; n])
                };
                o.push(it.d.wite(over, &sat, &r[..n]));
            }
            it.unlanes(o, es, tys[0])
        }
        "eq" | "ne" | "lt" | "le" | "gt" | "ge" => {
            let (a, es, s) = it.lanes(st, tys[0], &args[0])?;
            let (b, _, _) = it.lanes(st, tys[1], &args[1])?;
            let rt = targ(info, 1)?;
            let mut o = vec![];
            for i in 0..a.len() {
                let (x, y) = (&a[i], &b[i]);
                let lt = |d: &mut Dom, p: &W, q: &W| if s { d.wslt(p, q) } else { d.wult(p, q) };
                let c = match op {
                    "eq" => it.d.weq(x, y),
                    "ne" => it.d.weq(x, y) ^ 1,
                    "lt" => lt(&mut it.d, x, y),
                    "ge" => lt(&mut it.d, x, y) ^ 1,
                    "gt" => lt(&mut it.d, y, x),
                    _ => lt(&mut it.d, y, x) ^ 1,
                };
                o.push(vec![c; es * 8]);
            }
            it.unlanes(o, es, rt)
        }
        "shuffle" | "shuffle_const_generic" => {
            let (n, e) = it.simd(tys[0])?;
            let es = it.size(e)?;
            let rt = it.ret_ty(info)?;
            let (m, _) = it.simd(rt)?;
            let mut out = vec![];
            for i in 0..m {
                let k = match it.sc(st, &args[2][4 * i..4 * i + 4])? {
                    Sc::C(k) => k as usize,
                    _ => return unsup("shuffle index"),
                };
                let src = if k < n { &args[0][k * es..(k + 1) * es] } else { &args[1][(k - n) * es..(k - n + 1) * es] };
                out.extend_from_slice(src);
            }
            let size = it.size(rt)?;
            out.resize(size, Byte::U);
            Ok(out)
        }
        "insert" | "insert_dyn" => {
            let (n, e) = it.simd(tys[0])?;
            let es = it.size(e)?;
            let k = match it.sc(st, &args[1])? {
                Sc::C(k) => k as usize,
                _ => return unsup("vector insert at a variable index"),
            };
            if k >= n {
                return it.ub(st, "vector insert out of range");
            }
            let mut out = args[0].clone();
            out[k * es..(k + 1) * es].clone_from_slice(&args[2]);
            Ok(out)
        }
        "extract" | "extract_dyn" => {
            let (n, e) = it.simd(tys[0])?;
            let es = it.size(e)?;
            let k = match it.sc(st, &args[1])? {
                Sc::C(k) => k as usize,
                _ => return unsup("vector extract at a variable index"),
            };
            if k >= n {
                return it.ub(st, "vector extract out of range");
            }
            Ok(args[0][k * es..(k + 1) * es].to_vec())
        }
        "splat" => {
            let rt = it.ret_ty(info)?;
            let (n, _) = it.simd(rt)?;
            let mut out = vec![];
            for _ in 0..n {
                out.extend_from_slice(&args[0]);
            }
            let size = it.size(rt)?;
            out.resize(size, Byte::U);
            Ok(out)
        }
        "select" => {
            let (m, _, _) = it.lanes(st, tys[0], &args[0])?;
            let (a, es, _) = it.lanes(st, tys[1], &args[1])?;
            let (b, _, _) = it.lanes(st, tys[2], &args[2])?;
            let mut o = vec![];
            for i in 0..a.len() {
                let c = *m[i].last().unwrap();
                o.push(it.d.wite(c, &a[i], &b[i]));
            }
            it.unlanes(o, es, tys[1])
        }
        "select_bitmask" => {
            let m = it.word(st, &args[0])?;
            let (a, es, _) = it.lanes(st, tys[1], &args[1])?;
            let (b, _, _) = it.lanes(st, tys[2], &args[2])?;
            if it.big {
                return unsup("bitmask on a big-endian target");
            }
            let mut o = vec![];
            for i in 0..a.len() {
                o.push(it.d.wite(m[i], &a[i], &b[i]));
            }
            it.unlanes(o, es, tys[1])
        }
        "bitmask" => {
            if it.big {
                return unsup("bitmask on a big-endian target");
            }
            let (a, _, _) = it.lanes(st, tys[0], &args[0])?;
            let rt = it.ret_ty(info)?;
            let n = it.size(rt)?;
            let mut w: W = a.iter().map(|x| *x.last().unwrap()).collect();
            w.resize(n * 8, F);
            let s = it.norm(w);
            Ok(it.bytes_of(&s, n))
        }
        "cast" | "as" => {
            let (a, _, s) = it.lanes(st, tys[0], &args[0])?;
            let rt = it.ret_ty(info)?;
            let (_, e) = it.simd(rt)?;
            let es = it.size(e)?;
            if it.int_ty(e).is_none() {
                return unsup("floating-point vector cast");
            }
            let o = a
                .into_iter()
                .map(|mut w| {
                    let f = if s { *w.last().unwrap() } else { F };
                    w.resize(es * 8, f);
                    w
                })
                .collect();
            it.unlanes(o, es, rt)
        }
        "reduce_and" | "reduce_or" | "reduce_xor" | "reduce_add_unordered" | "reduce_add_ordered" | "reduce_all" | "reduce_any" | "reduce_max" | "reduce_min" => {
            let (a, es, s) = it.lanes(st, tys[0], &args[0])?;
            if op == "reduce_all" || op == "reduce_any" {
                let mut c = if op == "reduce_all" { T } else { F };
                for w in &a {
                    let b = *w.last().unwrap();
                    c = if op == "reduce_all" { it.d.and(c, b) } else { it.d.or(c, b) };
                }
                return Ok(it.bool_byte(c));
            }
            let mut acc = a[0].clone();
            if op == "reduce_add_ordered" {
                let x = it.word(st, &args[1])?;
                acc = it.d.wadd(&acc, &x);
            }
            // the greatest is zero when all are, the least all ones likewise: exact whatever becomes of the value
            let unsigned = (op == "reduce_max" || op == "reduce_min") && !s;
            let full = it.d.op_budget;
            if unsigned {
                it.d.op_budget = 30_000;
            }
            for w in &a[1..] {
                acc = match op {
                    "reduce_and" => it.d.wand(&acc, w),
                    "reduce_or" => it.d.wor(&acc, w),
                    "reduce_xor" => it.d.wxor(&acc, w),
                    "reduce_max" | "reduce_min" => {
                        let lt = if s { it.d.wslt(&acc, w) } else { it.d.wult(&acc, w) };
                        let c = if op == "reduce_max" { lt } else { lt ^ 1 };
                        it.d.wite(c, w, &acc)
                    }
                    _ => it.d.wadd(&acc, w),
                };
            }
            it.d.op_budget = full;
            if unsigned {
                let (mut any, max) = (F, op == "reduce_max");
                for b in a.iter().flatten() {
                    any = it.d.or(any, if max { *b } else { b ^ 1 });
                }
                let c = if max { 0 } else { wval_ones(es * 8) };
                it.d.remember(&acc, c, any ^ 1);
            }
            let s = it.norm(acc);
            Ok(it.bytes_of(&s, es))
        }
        _ => unsup(format!("vector intrinsic simd_{op}")),
    }
}

fn wval_ones(n: usize) -> u128 {
    if n >= 128 { u128::MAX } else { (1 << n) - 1 }
}
