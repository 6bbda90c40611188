//! Transfer functions: places, operands, rvalues, statements, terminators, calls.
use crate::bdd::{B, F, T};
use crate::dom::{Dom, F8, SECRET};
use crate::fx::FxHashMap;
use crate::interp::*;
use crate::mem::*;
use crate::word::{wconst, wval, W};
use rustc_public::abi::*;
use rustc_public::crate_def::{CrateDef, CrateDefType};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public_bridge::IndexedVal;
use std::rc::Rc;

pub type Ret = Vec<(State, Vec<Byte>)>;

/// What a typed copy of a type requires of its bytes.
#[derive(Default)]
pub struct Need {
    /// byte ranges that must be initialised
    pub init: Vec<(usize, usize)>,
    /// (offset, size, start, end) wrapping ranges
    pub range: Vec<(usize, usize, u128, u128)>,
    /// offsets of references / non-null pointers
    pub nonnull: Vec<usize>,
}

impl Interp {
    // ---- typed validity ---------------------------------------------------------
    pub fn need(&mut self, ty: Ty) -> R<Rc<Need>> {
        if let Some(n) = self.needs.get(&ty) {
            return Ok(n.clone());
        }
        let mut n = Need::default();
        self.need_(ty, 0, &mut n)?;
        // merge adjacent ranges
        n.init.sort();
        let mut m: Vec<(usize, usize)> = vec![];
        for (o, l) in n.init {
            match m.last_mut() {
                Some((a, b)) if *a + *b >= o => *b = (*b).max(o + l - *a),
                _ => m.push((o, l)),
            }
        }
        n.init = m;
        let n = Rc::new(n);
        self.needs.insert(ty, n.clone());
        Ok(n)
    }
    fn need_(&mut self, ty: Ty, off: usize, n: &mut Need) -> R<()> {
        let lay = self.lay(ty)?;
        if lay.size == 0 {
            return Ok(());
        }
        let kind = self.kind(ty);
        match &*kind {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => {
                    n.init.push((off, 1));
                    n.range.push((off, 1, 0, 1));
                }
                RigidTy::Char => {
                    n.init.push((off, 4));
                    n.range.push((off, 4, 0, 0x10ffff));
                }
                RigidTy::Int(_) | RigidTy::Uint(_) | RigidTy::Float(_) => n.init.push((off, lay.size)),
                RigidTy::RawPtr(..) => n.init.push((off, lay.size)),
                RigidTy::Ref(..) | RigidTy::FnPtr(..) => {
                    n.init.push((off, lay.size));
                    n.nonnull.push(off);
                }
                RigidTy::Pat(t, _) => {
                    self.need_(*t, off, n)?;
                    if let ValueRepr::Scalar(Scalar::Initialized { value, valid_range }) = &lay.shape.value_repr {
                        if let Primitive::Int { length, .. } = value {
                            n.range.push((off, length.bits() / 8, valid_range.start, valid_range.end));
                        } else {
                            n.nonnull.push(off);
                        }
                    }
                }
                RigidTy::Array(t, c) => {
                    let cnt = c.eval_target_usize().map_err(|e| Stop::Unsup(format!("{e:?}")))? as usize;
                    let es = self.size(*t)?;
                    if cnt > 0 {
                        let sub = self.need(*t)?;
                        for i in 0..cnt {
                            for (o, l) in &sub.init {
                                n.init.push((off + i * es + o, *l));
                            }
                            for (o, l, a, b) in &sub.range {
                                n.range.push((off + i * es + o, *l, *a, *b));
                            }
                            for o in &sub.nonnull {
                                n.nonnull.push(off + i * es + o);
                            }
                        }
                    }
                }
                RigidTy::Tuple(ts) => {
                    let offs = self.field_offsets(&lay.shape, None)?;
                    for (i, t) in ts.iter().enumerate() {
                        self.need_(*t, off + offs[i], n)?;
                    }
                }
                RigidTy::Adt(def, args) => match def.kind() {
                    AdtKind::Union => {}
                    AdtKind::Struct => {
                        let offs = self.field_offsets(&lay.shape, None)?;
                        let fs = def.variants()[0].fields();
                        for (i, f) in fs.iter().enumerate() {
                            let t = f.ty_with_args(args);
                            if i < offs.len() {
                                self.need_(t, off + offs[i], n)?;
                            }
                        }
                        if let ValueRepr::Scalar(Scalar::Initialized { value: Primitive::Int { length, .. }, valid_range }) = &lay.shape.value_repr {
                            let full = valid_range.is_full(rustc_public::target::MachineSize::from_bits(length.bits())).unwrap_or(true);
                            if !full {
                                n.range.push((off, length.bits() / 8, valid_range.start, valid_range.end));
                            }
                        }
                    }
                    AdtKind::Enum => {
                        if let VariantsShape::Multiple { tag, tag_field, tag_encoding, .. } = &lay.shape.variants {
                            let to = self.field_offsets(&lay.shape, None)?[*tag_field];
                            if let Scalar::Initialized { value, valid_range } = tag {
                                let sz = match value {
                                    Primitive::Int { length, .. } => length.bits() / 8,
                                    _ => self.pb,
                                };
                                n.init.push((off + to, sz));
                                if matches!(tag_encoding, TagEncoding::Direct) {
                                    n.range.push((off + to, sz, valid_range.start, valid_range.end));
                                }
                            }
                        } else if let VariantsShape::Single { index } = &lay.shape.variants {
                            let offs = self.field_offsets(&lay.shape, None)?;
                            if let Some(v) = def.variants().get(index.to_index()) {
                                for (i, f) in v.fields().iter().enumerate() {
                                    let t = f.ty_with_args(args);
                                    if i < offs.len() {
                                        self.need_(t, off + offs[i], n)?;
                                    }
                                }
                            }
                        }
                    }
                },
                _ => {}
            },
            _ => {}
        }
        Ok(())
    }
    pub fn check_valid(&mut self, st: &mut State, ty: Ty, bytes: &[Byte]) -> R<()> {
        let n = self.need(ty)?;
        for (o, l) in &n.init {
            for i in *o..*o + *l {
                match &bytes[i] {
                    Byte::U => return self.ub(st, format!("uninitialised memory used as a value of type {ty}")),
                    Byte::S(s) if s.init != T => {
                        let init = s.init;
                        self.require(st, init, || format!("possibly uninitialised memory used as a value of type {ty}"))?;
                    }
                    _ => {}
                }
            }
        }
        for (o, l, a, b) in &n.range {
            let s = self.sc(st, &bytes[*o..*o + *l])?;
            let bad = |v: u128| if a <= b { v < *a || v > *b } else { v < *a && v > *b };
            match &s {
                Sc::C(v) => {
                    if bad(*v) {
                        return self.ub(st, format!("invalid value {v:#x} for type {ty}"));
                    }
                }
                Sc::W(w) => {
                    let nb = w.len();
                    let lo = wconst(*a, nb);
                    let hi = wconst(*b, nb);
                    let x = self.d.wult(w, &lo);
                    let y = self.d.wult(&hi, w);
                    let bad = if a <= b { self.d.or(x, y) } else { self.d.and(x, y) };
                    self.require(st, bad ^ 1, || format!("possibly invalid value for type {ty}"))?;
                }
                Sc::P(_) => {}
            }
        }
        for o in &n.nonnull {
            let s = self.sc(st, &bytes[*o..*o + self.pb])?;
            if let Sc::C(0) = s {
                return self.ub(st, format!("null reference of type {ty}"));
            }
        }
        Ok(())
    }
    pub fn field_offsets(&mut self, shape: &LayoutShape, variant: Option<usize>) -> R<Vec<usize>> {
        if let (Some(v), VariantsShape::Multiple { variants, .. }) = (variant, &shape.variants) {
            return Ok(variants[v].offsets.iter().map(|o| o.bytes()).collect());
        }
        Ok(match &shape.fields {
            FieldsShape::Arbitrary { offsets } => offsets.iter().map(|o| o.bytes()).collect(),
            FieldsShape::Array { stride, count } => (0..*count as usize).map(|i| i * stride.bytes()).collect(),
            FieldsShape::Union(n) => vec![0; n.get()],
            FieldsShape::Primitive => vec![],
        })
    }

    // ---- places ----------------------------------------------------------------------
    pub fn ensure_local(&mut self, st: &mut State, fr: &Frame, l: usize) {
        let id = fr.base + l as u32;
        if !st.mem.contains_key(&id) {
            let (size, align, _) = fr.body.locals[l];
            self.aligns.borrow_mut().insert(id, align);
            st.mem.insert(id, Rc::new(Alloc { bytes: vec![Byte::U; size], align, kind: Kind::Local, len: None, hot: self.level > 0 }));
        }
    }
    pub fn ptr_from(&mut self, s: &Sc) -> Ptr {
        match s {
            Sc::P(p) => (**p).clone(),
            Sc::C(v) => Ptr { alloc: 0, off: Off::C(*v as u64) },
            Sc::W(w) => Ptr { alloc: 0, off: Off::S(Rc::new(w.clone())) },
        }
    }
    pub fn place(&mut self, st: &mut State, fr: &Frame, p: &Place) -> R<Place_> {
        self.ensure_local(st, fr, p.local);
        let (_, align, ty) = fr.body.locals[p.local];
        let mut r = Place_ { ptr: Ptr { alloc: fr.base + p.local as u32, off: Off::C(0) }, meta: None, ty, variant: None, align, direct: Some(p.local) };
        for e in &p.projection {
            match e {
                ProjectionElem::Deref => {
                    let n = self.size(r.ty)?;
                    let b = self.read(st, &r.ptr, n, if r.direct.is_some() { 1 } else { r.align })?;
                    let ptr = self.sc(st, &b[..self.pb])?;
                    let meta = if n > self.pb { Some(self.sc(st, &b[self.pb..])?) } else { None };
                    let inner = match self.pointee(r.ty) {
                        Some(t) => t,
                        None => return unsup(format!("deref of {}", r.ty)),
                    };
                    let unsized_ = self.is_unsized(inner)?;
                    let align = if unsized_ {
                        match self.elem_ty(inner) {
                            Some(t) => self.lay(t)?.align,
                            None => 1,
                        }
                    } else {
                        self.lay(inner)?.align
                    };
                    r = Place_ { ptr: self.ptr_from(&ptr), meta, ty: inner, variant: None, align, direct: None };
                }
                ProjectionElem::Field(i, fty) => {
                    let lay = self.lay(r.ty)?;
                    let off = if let FieldsShape::Union(_) = lay.shape.fields {
                        0
                    } else {
                        let o = self.field_offsets(&lay.shape, r.variant)?;
                        if *i >= o.len() {
                            return unsup(format!("field {i} of {}", r.ty));
                        }
                        o[*i]
                    };
                    r.ptr.off = self.off_add(&r.ptr.off, off as u64);
                    let fl = match self.elem_ty(*fty) {
                        Some(t) => self.lay(t)?.align,
                        None => self.lay(*fty)?.align,
                    };
                    if !self.is_unsized(*fty)? {
                        r.meta = None;
                    }
                    r.align = r.align.min(fl);
                    r.ty = *fty;
                    r.variant = None;
                    r.direct = None;
                }
                ProjectionElem::Index(l) => {
                    let et = match self.elem_ty(r.ty) {
                        Some(t) => t,
                        None => return unsup("index of a non-array"),
                    };
                    let es = self.size(et)?;
                    let ib = self.read(st, &Ptr { alloc: fr.base + *l as u32, off: Off::C(0) }, self.pb, 1)?;
                    let iv = self.sc(st, &ib)?;
                    let len = self.len_of(&r)?;
                    // indexing out of range is undefined behaviour at this level
                    match (&iv, &len) {
                        (Sc::C(i), Sc::C(n)) => {
                            if i >= n {
                                return self.ub(st, format!("index {i} out of range {n}"));
                            }
                        }
                        _ => {
                            let nb = self.pb * 8;
                            let iw = bits_of(&iv, nb, self);
                            let lw = bits_of(&len, nb, self);
                            let ok = self.d.wult(&iw, &lw);
                            self.require(st, ok, || "index possibly out of range".into())?;
                        }
                    }
                    let o = self.scale(&iv, es);
                    r.ptr.off = self.off_add_w(&r.ptr.off, &o);
                    let ea = self.lay(et)?.align;
                    r.align = r.align.min(ea);
                    r.ty = et;
                    r.meta = None;
                    r.direct = None;
                }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    let et = self.elem_ty(r.ty).unwrap();
                    let es = self.size(et)? as u64;
                    if *from_end {
                        let len = self.len_of(&r)?;
                        let nb = self.pb * 8;
                        match len {
                            Sc::C(n) => r.ptr.off = self.off_add(&r.ptr.off, (n as u64 - offset) * es),
                            _ => {
                                let lw = bits_of(&len, nb, self);
                                let k = wconst(*offset as u128, nb);
                                let i = self.d.wsub(&lw, &k);
                                let o = self.scale(&Sc::W(i), es as usize);
                                r.ptr.off = self.off_add_w(&r.ptr.off, &o);
                            }
                        }
                    } else {
                        r.ptr.off = self.off_add(&r.ptr.off, offset * es);
                    }
                    let ea = self.lay(et)?.align;
                    r.align = r.align.min(ea);
                    r.ty = et;
                    r.meta = None;
                    r.direct = None;
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let et = self.elem_ty(r.ty).unwrap();
                    let es = self.size(et)? as u64;
                    let len = self.len_of(&r)?;
                    r.ptr.off = self.off_add(&r.ptr.off, from * es);
                    let is_arr = matches!(&*self.kind(r.ty), TyKind::RigidTy(RigidTy::Array(..)));
                    if is_arr {
                        let n = match len {
                            Sc::C(n) => n as u64,
                            _ => unreachable!(),
                        };
                        let cnt = if *from_end { n - from - to } else { to - from };
                        r.ty = match Ty::try_new_array(et, cnt) {
                            Ok(t) => t,
                            Err(e) => return unsup(format!("{e:?}")),
                        };
                    } else {
                        let k = from + to;
                        r.meta = Some(match len {
                            Sc::C(n) => Sc::C(n.wrapping_sub(k as u128) & mask(self.pb * 8)),
                            o => {
                                let nb = self.pb * 8;
                                let lw = bits_of(&o, nb, self);
                                let kw = wconst(k as u128, nb);
                                let w = self.d.wsub(&lw, &kw);
                                self.norm(w)
                            }
                        });
                    }
                    r.direct = None;
                }
                ProjectionElem::Downcast(v) => {
                    r.variant = Some(v.to_index());
                    r.direct = None;
                }
                ProjectionElem::OpaqueCast(t) => r.ty = *t,
            }
        }
        Ok(r)
    }
    pub fn scale(&mut self, i: &Sc, k: usize) -> Sc {
        match i {
            Sc::C(v) => Sc::C(v.wrapping_mul(k as u128) & mask(self.pb * 8)),
            _ => {
                let nb = self.pb * 8;
                let w = bits_of(i, nb, self);
                let r = if k.is_power_of_two() { Dom::shl_c(&w, k.trailing_zeros() as usize) } else { self.d.wmul(&w, &wconst(k as u128, nb)) };
                self.norm(r)
            }
        }
    }
    pub fn len_of(&mut self, p: &Place_) -> R<Sc> {
        match &*self.kind(p.ty) {
            TyKind::RigidTy(RigidTy::Array(_, c)) => Ok(Sc::C(c.eval_target_usize().map_err(|e| Stop::Unsup(format!("{e:?}")))? as u128)),
            _ => match &p.meta {
                Some(m) => Ok(m.clone()),
                None => unsup(format!("length of {}", p.ty)),
            },
        }
    }
    pub fn read_place(&mut self, st: &mut State, p: &Place_) -> R<Vec<Byte>> {
        let n = self.size(p.ty)?;
        let v = self.read(st, &p.ptr, n, if p.direct.is_some() { 1 } else { p.align })?;
        if p.direct.is_none() {
            self.check_valid(st, p.ty, &v)?;
        }
        Ok(v)
    }
    pub fn place_ptr(&mut self, p: &Place_) -> Vec<Byte> {
        let mut v = if p.ptr.alloc == 0 {
            let s = match &p.ptr.off {
                Off::C(c) => Sc::C(*c as u128),
                Off::S(w) => Sc::W((**w).clone()),
            };
            self.bytes_of(&s, self.pb)
        } else {
            self.ptr_bytes(Rc::new(p.ptr.clone()))
        };
        if let Some(m) = &p.meta {
            v.extend(self.bytes_of(m, self.pb));
        }
        v
    }

    // ---- operands ---------------------------------------------------------------------
    pub fn const_bytes(&mut self, c: &MirConst) -> R<Vec<Byte>> {
        let n = self.size(c.ty())?;
        match c.kind() {
            ConstantKind::ZeroSized => Ok(vec![]),
            ConstantKind::Allocated(a) => {
                let mut v = self.alloc_bytes(a);
                v.resize(n, Byte::U);
                Ok(v)
            }
            ConstantKind::Ty(t) => match t.kind() {
                TyConstKind::Value(_, a) => {
                    let mut v = self.alloc_bytes(a);
                    v.resize(n, Byte::U);
                    Ok(v)
                }
                TyConstKind::ZSTValue(_) => Ok(vec![]),
                k => unsup(format!("constant {k:?}")),
            },
            k => unsup(format!("constant {k:?}")),
        }
    }
    pub fn operand_ty(&mut self, fr: &Frame, o: &Operand) -> R<Ty> {
        o.ty(fr.body.body.locals()).map_err(|e| Stop::Unsup(format!("{e:?}")))
    }
    pub fn operand(&mut self, st: &mut State, fr: &Frame, o: &Operand) -> R<Vec<Byte>> {
        match o {
            Operand::Copy(p) | Operand::Move(p) => {
                let p = self.place(st, fr, p)?;
                self.read_place(st, &p)
            }
            Operand::Constant(c) => self.const_bytes(&c.const_),
            Operand::RuntimeChecks(k) => Ok(vec![Byte::C(matches!(k, RuntimeChecks::OverflowChecks) as u8 & self.overflow_checks as u8)]),
        }
    }
    fn operand_sc(&mut self, st: &mut State, fr: &Frame, o: &Operand) -> R<Sc> {
        let b = self.operand(st, fr, o)?;
        self.sc(st, &b)
    }

    // ---- scalar operations -----------------------------------------------------------------
    fn ptr_pair(&self, a: &Sc, b: &Sc) -> Option<(Rc<Ptr>, Rc<Ptr>)> {
        match (a, b) {
            (Sc::P(p), Sc::P(q)) => Some((p.clone(), q.clone())),
            _ => None,
        }
    }
    pub fn ptr_eq(&mut self, a: &Sc, b: &Sc) -> Option<B> {
        match (a, b) {
            (Sc::P(p), Sc::P(q)) => {
                if p.alloc == q.alloc {
                    let x = self.off_w(&p.off);
                    let y = self.off_w(&q.off);
                    Some(self.d.weq(&x, &y))
                } else {
                    None
                }
            }
            (Sc::P(_), Sc::C(0)) | (Sc::C(0), Sc::P(_)) => Some(F),
            _ => None,
        }
    }
    /// n bits, signedness; returns (value, overflow)
    pub fn arith(&mut self, op: BinOp, a: &Sc, b: &Sc, n: usize, signed: bool) -> R<(Sc, B)> {
        use BinOp::*;
        if let (Sc::C(x), Sc::C(y)) = (a, b) {
            let (x, y, m) = (*x, *y, mask(n));
            let (sx, sy) = (sext(x, n), sext(y, n));
            let r = match op {
                Add | AddUnchecked => {
                    let r = x.wrapping_add(y) & m;
                    let o = if signed {
                        let (s, o) = sx.overflowing_add(sy);
                        o || sext(r, n) != s
                    } else {
                        let (s, o) = x.overflowing_add(y);
                        o || s > m
                    };
                    (r, o)
                }
                Sub | SubUnchecked => {
                    let r = x.wrapping_sub(y) & m;
                    let o = if signed {
                        let (s, o) = sx.overflowing_sub(sy);
                        o || sext(r, n) != s
                    } else {
                        x < y
                    };
                    (r, o)
                }
                Mul | MulUnchecked => {
                    let r = x.wrapping_mul(y) & m;
                    let o = if signed {
                        let (s, o) = sx.overflowing_mul(sy);
                        o || sext(r, n) != s
                    } else {
                        let (s, o) = x.overflowing_mul(y);
                        o || s > m
                    };
                    (r, o)
                }
                BitXor => (x ^ y, false),
                BitAnd => (x & y, false),
                BitOr => (x | y, false),
                Div if y != 0 => (if signed { (sx.wrapping_div(sy)) as u128 & m } else { x / y }, false),
                Rem if y != 0 => (if signed { (sx.wrapping_rem(sy)) as u128 & m } else { x % y }, false),
                _ => return unsup(format!("constant operation {op:?}")),
            };
            return Ok((Sc::C(r.0), if r.1 { T } else { F }));
        }
        // pointer-ish: p + const keeps provenance only through Offset
        let x = bits_of(a, n, self);
        let y = bits_of(b, n, self);
        self.note_expose(a);
        self.note_expose(b);
        let d = &mut self.d;
        Ok(match op {
            Add | AddUnchecked => {
                let (r, c, p) = d.wadc(&x, &y, F);
                let o = if signed { d.xor(c, p) } else { c };
                (self.norm(r), o)
            }
            Sub | SubUnchecked => {
                let ny = d.wnot(&y);
                let (r, c, p) = d.wadc(&x, &ny, T);
                let o = if signed { d.xor(c, p) } else { c ^ 1 };
                (self.norm(r), o)
            }
            Mul | MulUnchecked => {
                // exact in double width
                let ext = |w: &W| -> W {
                    let f = if signed { w[n - 1] } else { F };
                    let mut w = w.clone();
                    w.resize(2 * n, f);
                    w
                };
                let small = wval(&x).or(wval(&y)).is_some();
                if n > 64 && !small {
                    return unsup("128-bit symbolic multiplication");
                }
                let r = d.wmul(&x, &y);
                let o = if self.want_overflow {
                    let (xx, yy) = (ext(&x), ext(&y));
                    let f = d.wmul(&xx, &yy);
                    let fill = if signed { f[n - 1] } else { F };
                    let mut o = F;
                    for k in n..2 * n {
                        let z = d.xor(f[k], fill);
                        o = d.or(o, z);
                    }
                    o
                } else {
                    F
                };
                (self.norm(r), o)
            }
            BitXor => {
                let r = d.wxor(&x, &y);
                (self.norm(r), F)
            }
            BitAnd => {
                let r = d.wand(&x, &y);
                (self.norm(r), F)
            }
            BitOr => {
                let r = d.wor(&x, &y);
                (self.norm(r), F)
            }
            Div | Rem => {
                if signed {
                    return unsup("signed symbolic division");
                }
                let (q, r) = d.wudivrem(&x, &y);
                (self.norm(if op == Div { q } else { r }), F)
            }
            _ => return unsup(format!("operation {op:?}")),
        })
    }
    pub fn note_expose(&mut self, a: &Sc) {
        if let Sc::P(_) = a {
            self.stats.exposed += 1;
        }
    }
    pub fn cmp(&mut self, op: BinOp, a: &Sc, b: &Sc, n: usize, signed: bool) -> R<B> {
        use BinOp::*;
        if let Some((p, q)) = self.ptr_pair(a, b) {
            if p.alloc == q.alloc {
                let x = self.off_w(&p.off);
                let y = self.off_w(&q.off);
                return self.cmpw(op, &x, &y, false);
            }
            // two different objects are never equal, their order is unspecified
            let onep = |s: &Self, p: &Ptr, st: &FxHashMap<AId, u64>| {
                let _ = (s, p, st);
                false
            };
            let _ = onep;
            match op {
                Eq => return Ok(F),
                Ne => return Ok(T),
                _ => self.stats.exposed += 1,
            }
        }
        if let Some(e) = self.ptr_eq(a, b) {
            match op {
                Eq => return Ok(e),
                Ne => return Ok(e ^ 1),
                _ => {}
            }
        }
        if let (Sc::C(x), Sc::C(y)) = (a, b) {
            let r = if signed {
                let (x, y) = (sext(*x, n), sext(*y, n));
                match op {
                    Eq => x == y,
                    Ne => x != y,
                    Lt => x < y,
                    Le => x <= y,
                    Gt => x > y,
                    Ge => x >= y,
                    _ => unreachable!(),
                }
            } else {
                match op {
                    Eq => x == y,
                    Ne => x != y,
                    Lt => x < y,
                    Le => x <= y,
                    Gt => x > y,
                    Ge => x >= y,
                    _ => unreachable!(),
                }
            };
            return Ok(if r { T } else { F });
        }
        self.note_expose(a);
        self.note_expose(b);
        let x = bits_of(a, n, self);
        let y = bits_of(b, n, self);
        self.cmpw(op, &x, &y, signed)
    }
    fn cmpw(&mut self, op: BinOp, x: &W, y: &W, signed: bool) -> R<B> {
        use BinOp::*;
        let lt = |d: &mut Dom, a: &W, b: &W| if signed { d.wslt(a, b) } else { d.wult(a, b) };
        Ok(match op {
            Eq => self.d.weq(x, y),
            Ne => self.d.weq(x, y) ^ 1,
            Lt => lt(&mut self.d, x, y),
            Ge => lt(&mut self.d, x, y) ^ 1,
            Gt => lt(&mut self.d, y, x),
            Le => lt(&mut self.d, y, x) ^ 1,
            _ => unreachable!(),
        })
    }
    /// Shift with the amount taken modulo the width; `over` is the condition that it was not below it.
    pub fn shift(&mut self, left: bool, a: &Sc, b: &Sc, n: usize, bn: usize, signed: bool) -> (Sc, B) {
        let lg = n.trailing_zeros() as usize;
        if let Sc::C(k) = b {
            let over = sext(*k, bn) < 0 && bn < 128 && (*k >> (bn - 1)) & 1 != 0 || *k >= n as u128;
            let k = (*k % n as u128) as usize;
            if let Sc::C(x) = a {
                let r = if left {
                    (x << k) & mask(n)
                } else if signed {
                    (sext(*x, n) >> k) as u128 & mask(n)
                } else {
                    x >> k
                };
                return (Sc::C(r), if over { T } else { F });
            }
            self.note_expose(a);
            let w = bits_of(a, n, self);
            let r = if left { Dom::shl_c(&w, k) } else { Dom::shr_c(&w, k, if signed { w[n - 1] } else { F }) };
            return (self.norm(r), if over { T } else { F });
        }
        let w = bits_of(a, n, self);
        let s = bits_of(b, bn, self);
        let mut over = F;
        for x in &s[lg.min(s.len())..] {
            over = self.d.or(over, *x);
        }
        let fill = if signed { w[n - 1] } else { F };
        let r = self.d.barrel(&w, &s[..lg.min(s.len())], |x, k| if left { Dom::shl_c(x, k) } else { Dom::shr_c(x, k, fill) });
        (self.norm(r), over)
    }

    pub fn binop(&mut self, st: &mut State, op: BinOp, a: &[Byte], b: &[Byte], ta: Ty, tb: Ty) -> R<Vec<Byte>> {
        use BinOp::*;
        if op == Offset {
            let inner = match self.pointee(ta) {
                Some(t) => t,
                None => return unsup("offset of a non-pointer"),
            };
            let es = self.size(inner)?;
            let p = self.sc(st, &a[..self.pb])?;
            let k = self.sc(st, b)?;
            let kb = self.int_ty(tb).map(|x| x.1).unwrap_or(true);
            let r = self.ptr_offset(st, &p, &k, es, true, kb)?;
            return Ok(self.bytes_of(&r, self.pb));
        }
        // wide pointers
        if a.len() == 2 * self.pb && self.pointee(ta).is_some() {
            let (a0, b0) = (self.sc(st, &a[..self.pb])?, self.sc(st, &b[..self.pb])?);
            let (a1, b1) = (self.sc(st, &a[self.pb..])?, self.sc(st, &b[self.pb..])?);
            let n = self.pb * 8;
            let x = self.cmp(Eq, &a0, &b0, n, false)?;
            let y = self.cmp(Eq, &a1, &b1, n, false)?;
            let e = self.d.and(x, y);
            return match op {
                Eq => Ok(self.bool_byte(e)),
                Ne => Ok(self.bool_byte(e ^ 1)),
                _ => unsup("ordering of wide pointers"),
            };
        }
        let (n, signed) = match self.int_ty(ta) {
            Some(x) => x,
            None => {
                if a.is_empty() {
                    return Ok(self.bool_byte(if matches!(op, Eq | Le | Ge) { T } else { F }));
                }
                return unsup(format!("binary operation on {ta}"));
            }
        };
        let x = self.sc(st, a)?;
        let y = self.sc(st, b)?;
        match op {
            Eq | Lt | Le | Ne | Ge | Gt => {
                let r = self.cmp(op, &x, &y, n, signed)?;
                Ok(self.bool_byte(r))
            }
            Cmp => {
                let lt = self.cmp(Lt, &x, &y, n, signed)?;
                let eq = self.cmp(Eq, &x, &y, n, signed)?;
                // -1, 0, 1
                let mut w = [lt; 8];
                w[0] = eq ^ 1;
                Ok(vec![Byte::from_bits(w)])
            }
            Shl | Shr | ShlUnchecked | ShrUnchecked => {
                let bn = b.len() * 8;
                let (r, over) = self.shift(matches!(op, Shl | ShlUnchecked), &x, &y, n, bn, signed);
                if matches!(op, ShlUnchecked | ShrUnchecked) {
                    self.require(st, over ^ 1, || "unchecked shift by too many bits".into())?;
                }
                Ok(self.bytes_of(&r, n / 8))
            }
            Div | Rem => {
                if let Sc::W(w) = &y {
                    if (self.d.wclass(w) | bits_of(&x, n, self).iter().fold(0, |k, b| k | self.d.b.class(*b))) & SECRET != 0 {
                        let pc = st.pc;
                        let w = w.clone();
                        self.event(EK::SecretDiv, &st.clone(), pc, w, "division with secret operands".into());
                    }
                }
                if let Sc::C(0) = y {
                    return self.ub(st, "division by zero");
                }
                let (r, _) = self.arith(op, &x, &y, n, signed)?;
                Ok(self.bytes_of(&r, n / 8))
            }
            _ => {
                let unchecked = matches!(op, AddUnchecked | SubUnchecked | MulUnchecked);
                self.want_overflow = unchecked;
                let r = self.arith(op, &x, &y, n, signed);
                self.want_overflow = false;
                let (r, o) = r?;
                if unchecked {
                    self.require(st, o ^ 1, || format!("unchecked arithmetic overflow ({op:?})"))?;
                }
                Ok(self.bytes_of(&r, a.len()))
            }
        }
    }
    /// p + k*es; with `check`, leaving the object is undefined behaviour
    pub fn ptr_offset(&mut self, st: &mut State, p: &Sc, k: &Sc, es: usize, check: bool, signed: bool) -> R<Sc> {
        let _ = signed;
        let o = self.scale(k, es);
        match p {
            Sc::P(q) => {
                let off = self.off_add_w(&q.off, &o);
                if check && es > 0 {
                    if let Some(a) = self.alloc_of(st, q.alloc) {
                        let a = a.clone();
                        match (&off, &a.len) {
                            (Off::C(c), None) => {
                                if *c > a.bytes.len() as u64 {
                                    return self.ub(st, format!("pointer arithmetic leaves the object (offset {} of {} bytes)", *c as i64, a.bytes.len()));
                                }
                            }
                            _ => {
                                let ow = self.off_w(&off);
                                let lw = match &a.len {
                                    Some(w) => (**w).clone(),
                                    None => wconst(a.bytes.len() as u128, self.pb * 8),
                                };
                                let bad = self.d.wult(&lw, &ow);
                                self.require(st, bad ^ 1, || "pointer arithmetic may leave the object".into())?;
                            }
                        }
                    }
                }
                Ok(Sc::P(Rc::new(Ptr { alloc: q.alloc, off })))
            }
            _ => {
                let n = self.pb * 8;
                Ok(self.arith(BinOp::Add, p, &o, n, false)?.0)
            }
        }
    }

    // ---- enums --------------------------------------------------------------------------
    pub fn discriminant(&mut self, st: &mut State, ty: Ty, bytes: &dyn Fn(&mut Interp, &mut State, usize, usize) -> R<Vec<Byte>>) -> R<Sc> {
        let lay = self.lay(ty)?;
        let kind = self.kind(ty);
        let dty = match kind.discriminant_ty() {
            Some(t) => t,
            None => return unsup("discriminant type"),
        };
        let dn = self.int_ty(dty).map(|x| x.0).unwrap_or(8);
        let adt = match &*kind {
            TyKind::RigidTy(RigidTy::Adt(d, a)) if d.kind() == AdtKind::Enum => Some((*d, a.clone())),
            _ => None,
        };
        let dv = |i: usize| -> u128 {
            match &adt {
                Some((d, a)) => d.discriminant_for_variant(VariantIdx::to_val(i)).val & mask(dn),
                None => 0,
            }
        };
        match &lay.shape.variants {
            VariantsShape::Empty => unsup("discriminant of an uninhabited type"),
            VariantsShape::Single { index } => Ok(Sc::C(dv(index.to_index()))),
            VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                let to = self.field_offsets(&lay.shape, None)?[*tag_field];
                let (Scalar::Initialized { value, .. } | Scalar::Union { value }) = tag;
                let (sz, signed) = match value {
                    Primitive::Int { length, signed } => (length.bits() / 8, *signed),
                    _ => (self.pb, false),
                };
                let b = bytes(self, st, to, sz)?;
                let t = self.sc(st, &b)?;
                match tag_encoding {
                    TagEncoding::Direct => Ok(match t {
                        Sc::C(v) => Sc::C((if signed { sext(v, sz * 8) as u128 } else { v }) & mask(dn)),
                        Sc::W(mut w) => {
                            let f = if signed { *w.last().unwrap() } else { F };
                            w.resize(dn, f);
                            Sc::W(w)
                        }
                        Sc::P(_) => return unsup("pointer tag"),
                    }),
                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                        let lo = niche_variants.start().to_index();
                        let hi = niche_variants.end().to_index();
                        let u = untagged_variant.to_index();
                        let _ = variants;
                        match t {
                            Sc::P(_) => Ok(Sc::C(dv(u))),
                            Sc::C(v) => {
                                let rel = v.wrapping_sub(*niche_start) & mask(sz * 8);
                                if rel <= (hi - lo) as u128 {
                                    Ok(Sc::C(dv(lo + rel as usize)))
                                } else {
                                    Ok(Sc::C(dv(u)))
                                }
                            }
                            Sc::W(w) => {
                                let mut r = wconst(dv(u), dn);
                                for i in lo..=hi {
                                    let k = niche_start.wrapping_add((i - lo) as u128) & mask(sz * 8);
                                    let c = self.d.weq(&w, &wconst(k, sz * 8));
                                    let v = wconst(dv(i), dn);
                                    r = self.d.wite(c, &v, &r);
                                }
                                Ok(self.norm(r))
                            }
                        }
                    }
                }
            }
        }
    }
    /// (offset, bytes) of the tag that selects a variant
    fn tag_bytes(&mut self, ty: Ty, v: usize) -> R<Option<(usize, Vec<Byte>)>> {
        let lay = self.lay(ty)?;
        match &lay.shape.variants {
            VariantsShape::Multiple { tag, tag_encoding, tag_field, .. } => {
                let to = self.field_offsets(&lay.shape, None)?[*tag_field];
                let (Scalar::Initialized { value, .. } | Scalar::Union { value }) = tag;
                let sz = match value {
                    Primitive::Int { length, .. } => length.bits() / 8,
                    _ => self.pb,
                };
                let val = match tag_encoding {
                    TagEncoding::Direct => match &*self.kind(ty) {
                        TyKind::RigidTy(RigidTy::Adt(d, _)) => d.discriminant_for_variant(VariantIdx::to_val(v)).val,
                        _ => v as u128,
                    },
                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                        if v == untagged_variant.to_index() {
                            return Ok(None);
                        }
                        niche_start.wrapping_add((v - niche_variants.start().to_index()) as u128)
                    }
                };
                Ok(Some((to, self.bytes_of(&Sc::C(val & mask(sz * 8)), sz))))
            }
            _ => Ok(None),
        }
    }

    // ---- rvalues ---------------------------------------------------------------------------
    fn rvalue(&mut self, st: &mut State, fr: &Frame, rv: &Rvalue, dty: Ty) -> R<Vec<Byte>> {
        match rv {
            Rvalue::Use(o, _) => self.operand(st, fr, o),
            Rvalue::CopyForDeref(p) => {
                let p = self.place(st, fr, p)?;
                self.read_place(st, &p)
            }
            Rvalue::Repeat(o, c) => {
                let n = c.eval_target_usize().map_err(|e| Stop::Unsup(format!("{e:?}")))? as usize;
                let b = self.operand(st, fr, o)?;
                let mut v = Vec::with_capacity(n * b.len());
                for _ in 0..n {
                    v.extend_from_slice(&b);
                }
                Ok(v)
            }
            Rvalue::Ref(_, _, p) | Rvalue::AddressOf(_, p) | Rvalue::Reborrow(_, _, p) => {
                let p = self.place(st, fr, p)?;
                Ok(self.place_ptr(&p))
            }
            Rvalue::Len(p) => {
                let p = self.place(st, fr, p)?;
                let l = self.len_of(&p)?;
                Ok(self.bytes_of(&l, self.pb))
            }
            Rvalue::BinaryOp(op, a, b) => {
                let (ta, tb) = (self.operand_ty(fr, a)?, self.operand_ty(fr, b)?);
                let x = self.operand(st, fr, a)?;
                let y = self.operand(st, fr, b)?;
                self.binop(st, *op, &x, &y, ta, tb)
            }
            Rvalue::CheckedBinaryOp(op, a, b) => {
                let ta = self.operand_ty(fr, a)?;
                let x = self.operand_sc(st, fr, a)?;
                let y = self.operand_sc(st, fr, b)?;
                let tb = self.operand_ty(fr, b)?;
                let (n, signed) = match self.int_ty(ta) {
                    Some(x) => x,
                    None => return unsup("checked operation type"),
                };
                let (r, o) = match op {
                    BinOp::Shl | BinOp::Shr => {
                        let bn = self.size(tb)? * 8;
                        self.shift(*op == BinOp::Shl, &x, &y, n, bn, signed)
                    }
                    _ => {
                        self.want_overflow = true;
                        let r = self.arith(*op, &x, &y, n, signed);
                        self.want_overflow = false;
                        r?
                    }
                };
                let lay = self.lay(dty)?;
                let offs = self.field_offsets(&lay.shape, None)?;
                let mut v = vec![Byte::U; lay.size];
                let rb = self.bytes_of(&r, n / 8);
                v[offs[0]..offs[0] + n / 8].clone_from_slice(&rb);
                v[offs[1]] = self.bool_byte(o)[0].clone();
                Ok(v)
            }
            Rvalue::UnaryOp(op, a) => {
                let ta = self.operand_ty(fr, a)?;
                let b = self.operand(st, fr, a)?;
                match op {
                    UnOp::PtrMetadata => Ok(if b.len() > self.pb { b[self.pb..].to_vec() } else { vec![] }),
                    UnOp::Not => {
                        let s = self.sc(st, &b)?;
                        let n = b.len() * 8;
                        let is_bool = matches!(&*self.kind(ta), TyKind::RigidTy(RigidTy::Bool));
                        let r = match s {
                            Sc::C(v) if is_bool => Sc::C(v ^ 1),
                            Sc::C(v) => Sc::C(!v & mask(n)),
                            _ => {
                                self.note_expose(&s);
                                let mut w = bits_of(&s, n, self);
                                if is_bool {
                                    w[0] ^= 1;
                                } else {
                                    for x in w.iter_mut() {
                                        *x ^= 1;
                                    }
                                }
                                Sc::W(w)
                            }
                        };
                        Ok(self.bytes_of(&r, b.len()))
                    }
                    UnOp::Neg => {
                        let s = self.sc(st, &b)?;
                        let n = b.len() * 8;
                        let (r, _) = self.arith(BinOp::Sub, &Sc::C(0), &s, n, true)?;
                        Ok(self.bytes_of(&r, b.len()))
                    }
                }
            }
            Rvalue::Discriminant(p) => {
                let p = self.place(st, fr, p)?;
                let ptr = p.ptr.clone();
                let f = move |it: &mut Interp, st: &mut State, o: usize, n: usize| {
                    let mut q = ptr.clone();
                    q.off = it.off_add(&q.off, o as u64);
                    it.read(st, &q, n, 1)
                };
                let s = self.discriminant(st, p.ty, &f)?;
                let n = self.size(dty)?;
                Ok(self.bytes_of(&s, n))
            }
            Rvalue::Aggregate(k, ops) => {
                let lay = self.lay(dty)?;
                let mut v = vec![Byte::U; lay.size];
                let mut vals = vec![];
                for o in ops {
                    vals.push(self.operand(st, fr, o)?);
                }
                match k {
                    AggregateKind::Array(_) => {
                        let mut o = 0;
                        for x in vals {
                            v[o..o + x.len()].clone_from_slice(&x);
                            o += x.len();
                        }
                    }
                    AggregateKind::RawPtr(..) => {
                        let mut o = 0;
                        for x in vals {
                            v[o..o + x.len()].clone_from_slice(&x);
                            o += x.len();
                        }
                    }
                    AggregateKind::Adt(_, _, _, _, Some(_)) => {
                        v[..vals[0].len()].clone_from_slice(&vals[0]);
                    }
                    AggregateKind::Adt(_, var, ..) => {
                        let i = var.to_index();
                        let multi = matches!(lay.shape.variants, VariantsShape::Multiple { .. });
                        let offs = self.field_offsets(&lay.shape, if multi { Some(i) } else { None })?;
                        for (j, x) in vals.iter().enumerate() {
                            v[offs[j]..offs[j] + x.len()].clone_from_slice(x);
                        }
                        if let Some((o, t)) = self.tag_bytes(dty, i)? {
                            v[o..o + t.len()].clone_from_slice(&t);
                        }
                    }
                    _ => {
                        let offs = self.field_offsets(&lay.shape, None)?;
                        for (j, x) in vals.iter().enumerate() {
                            v[offs[j]..offs[j] + x.len()].clone_from_slice(x);
                        }
                    }
                }
                Ok(v)
            }
            Rvalue::Cast(k, o, t) => {
                let from = self.operand_ty(fr, o)?;
                let b = self.operand(st, fr, o)?;
                self.cast(st, k, b, from, *t)
            }
            Rvalue::ThreadLocalRef(i) => {
                self.stats.statics_touched.insert(i.name().to_string());
                unsup(format!("thread-local {}", i.name()))
            }
        }
    }

    fn peel(&mut self, ty: Ty) -> Option<Ty> {
        if let Some(t) = self.pointee(ty) {
            return Some(t);
        }
        if let TyKind::RigidTy(RigidTy::Adt(d, a)) = &*self.kind(ty) {
            for f in d.variants().first()?.fields() {
                let t = f.ty_with_args(a);
                if self.size(t).ok()? > 0 {
                    return self.peel(t);
                }
            }
        }
        None
    }
    fn tail_pair(&mut self, a: Ty, b: Ty) -> (Ty, Ty) {
        let (ka, kb) = (self.kind(a), self.kind(b));
        if let (TyKind::RigidTy(RigidTy::Adt(d, x)), TyKind::RigidTy(RigidTy::Adt(e, y))) = (&*ka, &*kb) {
            if d == e && d.kind() == AdtKind::Struct {
                let f = d.variants()[0].fields();
                if let Some(l) = f.last() {
                    let (p, q) = (l.ty_with_args(x), l.ty_with_args(y));
                    return self.tail_pair(p, q);
                }
            }
        }
        (a, b)
    }
    pub fn cast(&mut self, st: &mut State, k: &CastKind, b: Vec<Byte>, from: Ty, to: Ty) -> R<Vec<Byte>> {
        let n = self.size(to)?;
        match k {
            CastKind::Transmute | CastKind::Subtype | CastKind::BoxDerefTransmute => {
                if b.len() != n {
                    return unsup("transmute between sizes");
                }
                self.check_valid(st, to, &b)?;
                if self.stack.last().map(|s| s.0.local || s.0.root).unwrap_or(false) {
                    self.layout_use(st, from, to);
                }
                Ok(b)
            }
            CastKind::PtrToPtr if n == b.len() && self.user_cast() => {
                if let (Some(f), Some(t)) = (self.peel(from), self.peel(to)) {
                    if f != t && !self.opaque_bytes(t) {
                        self.layout_use(st, f, t);
                    }
                }
                Ok(b)
            }
            CastKind::PtrToPtr | CastKind::FnPtrToPtr | CastKind::PointerCoercion(PointerCoercion::MutToConstPointer | PointerCoercion::ArrayToPointer | PointerCoercion::UnsafeFnPointer) => {
                Ok(b[..n].to_vec())
            }
            CastKind::PointerExposeAddress => {
                let s = self.sc(st, &b)?;
                self.note_expose(&s);
                let w = bits_of(&s, self.pb * 8, self);
                let s = self.norm(w);
                self.int_cast(&s, b.len() * 8, false, n * 8).map(|s| self.bytes_of(&s, n))
            }
            CastKind::PointerWithExposedProvenance => Ok(b),
            CastKind::IntToInt => {
                let s = self.sc(st, &b)?;
                let signed = self.int_ty(from).map(|x| x.1).unwrap_or(false);
                let r = self.int_cast(&s, b.len() * 8, signed, n * 8)?;
                Ok(self.bytes_of(&r, n))
            }
            CastKind::PointerCoercion(PointerCoercion::ReifyFnPointer(_)) => match &*self.kind(from) {
                TyKind::RigidTy(RigidTy::FnDef(d, a)) => {
                    let i = Instance::resolve_for_fn_ptr(*d, a).map_err(|e| Stop::Unsup(format!("{e:?}")))?;
                    let id = self.fn_alloc(i);
                    Ok(self.mkptr(id, 0))
                }
                _ => unsup("reify"),
            },
            CastKind::PointerCoercion(PointerCoercion::ClosureFnPointer(_)) => match &*self.kind(from) {
                TyKind::RigidTy(RigidTy::Closure(d, a)) => {
                    let i = Instance::resolve_closure(*d, a, ClosureKind::FnOnce).map_err(|e| Stop::Unsup(format!("{e:?}")))?;
                    let id = self.fn_alloc(i);
                    Ok(self.mkptr(id, 0))
                }
                _ => unsup("closure to fn pointer"),
            },
            CastKind::PointerCoercion(PointerCoercion::Unsize) => {
                if b.len() == n {
                    // dyn upcast or already wide
                    return Ok(b);
                }
                let (f, t) = match (self.peel(from), self.peel(to)) {
                    (Some(f), Some(t)) => (f, t),
                    _ => return unsup("unsize of a non-pointer"),
                };
                let (f, t) = self.tail_pair(f, t);
                let mut v = b;
                let (kf, kt) = (self.kind(f), self.kind(t));
                match (&*kf, &*kt) {
                    (TyKind::RigidTy(RigidTy::Array(_, c)), TyKind::RigidTy(RigidTy::Slice(_))) => {
                        let l = c.eval_target_usize().map_err(|e| Stop::Unsup(format!("{e:?}")))?;
                        v.extend(self.usize_bytes(l));
                        Ok(v)
                    }
                    (_, TyKind::RigidTy(RigidTy::Dynamic(..))) => {
                        let pr = kt.trait_principal();
                        let ga = GlobalAlloc::VTable(f, pr);
                        let id = match ga.vtable_allocation() {
                            Some(i) => i,
                            None => return unsup("vtable"),
                        };
                        let a = self.global(id);
                        v.extend(self.mkptr(a, 0));
                        Ok(v)
                    }
                    _ => unsup(format!("unsize {f} to {t}")),
                }
            }
            _ => unsup(format!("cast {k:?}")),
        }
    }
    pub fn int_cast(&mut self, s: &Sc, n: usize, signed: bool, m: usize) -> R<Sc> {
        Ok(match s {
            Sc::C(v) => Sc::C((if signed { sext(*v, n) as u128 } else { *v }) & mask(m)),
            Sc::P(_) if n == m => s.clone(),
            _ => {
                self.note_expose(s);
                let mut w = bits_of(s, n, self);
                let f = if signed { w[n - 1] } else { F };
                w.resize(m, f);
                self.norm(w)
            }
        })
    }

    // ---- statements ------------------------------------------------------------------------------
    fn statement(&mut self, st: &mut State, fr: &Frame, s: &Statement) -> R<()> {
        match &s.kind {
            StatementKind::Assign(p, rv) => {
                let dty = match p.projection.is_empty() {
                    true => fr.body.locals[p.local].2,
                    false => p.ty(fr.body.body.locals()).map_err(|e| Stop::Unsup(format!("{e:?}")))?,
                };
                let v = self.rvalue(st, fr, rv, dty)?;
                self.assign(st, fr, p, v)
            }
            StatementKind::SetDiscriminant { place, variant_index } => {
                let p = self.place(st, fr, place)?;
                if let Some((o, t)) = self.tag_bytes(p.ty, variant_index.to_index())? {
                    let mut q = p.ptr.clone();
                    q.off = self.off_add(&q.off, o as u64);
                    self.write(st, &q, &t, 1)?;
                }
                Ok(())
            }
            StatementKind::StorageLive(l) | StatementKind::StorageDead(l) => {
                st.mem.remove(&(fr.base + *l as u32));
                Ok(())
            }
            StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => {
                let b = self.operand(st, fr, o)?;
                let c = self.word(st, &b)?[0];
                self.require(st, c, || "assume() of a condition that can be false".into())
            }
            StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                let pt = self.operand_ty(fr, &c.src)?;
                let t = self.pointee(pt).unwrap();
                let lay = self.lay(t)?;
                let src = self.operand_sc(st, fr, &c.src)?;
                let dst = self.operand_sc(st, fr, &c.dst)?;
                let cnt = self.operand_sc(st, fr, &c.count)?;
                self.copy_mem(st, &src, &dst, &cnt, lay.size, lay.align, false)
            }
            _ => Ok(()),
        }
    }
    pub fn copy_mem(&mut self, st: &mut State, src: &Sc, dst: &Sc, cnt: &Sc, es: usize, align: u64, overlap_ok: bool) -> R<()> {
        let (sp, dp) = (self.ptr_from(src), self.ptr_from(dst));
        match self.scale(cnt, es) {
            Sc::C(n) => {
                let n = n as usize;
                if n == 0 {
                    return Ok(());
                }
                if !overlap_ok && sp.alloc == dp.alloc {
                    if let (Off::C(a), Off::C(b)) = (&sp.off, &dp.off) {
                        if a.abs_diff(*b) < n as u64 {
                            return self.ub(st, "copy_nonoverlapping between overlapping ranges");
                        }
                    }
                }
                let v = self.read(st, &sp, n, align)?;
                self.write(st, &dp, &v, align)
            }
            s => {
                // symbolic count: bytes below the count are copied, the others keep their value
                let (Off::C(a), Off::C(b)) = (&sp.off, &dp.off) else {
                    return unsup("copy of symbolic length at a symbolic offset");
                };
                let nb = self.pb * 8;
                let w = bits_of(&s, nb, self);
                if self.d.wclass(&w) & SECRET != 0 {
                    let pc = st.pc;
                    self.event(EK::SecretIndex, &st.clone(), pc, w.clone(), "copy of secret-dependent length".into());
                }
                let (Some(sa), Some(da)) = (self.alloc_of(st, sp.alloc).cloned(), self.alloc_of(st, dp.alloc).cloned()) else {
                    return self.ub(st, "copy through a dangling pointer");
                };
                for (al, off, what) in [(&sa, *a, "read"), (&da, *b, "write")] {
                    let lw = match &al.len {
                        Some(l) => (**l).clone(),
                        None => wconst(al.bytes.len() as u128, nb),
                    };
                    let mut end = w.clone();
                    end.push(F);
                    let mut ow = wconst(off as u128, nb);
                    ow.push(F);
                    let end = self.d.wadd(&end, &ow);
                    let mut l = lw;
                    l.push(F);
                    let bad = self.d.wult(&l, &end);
                    self.require(st, bad ^ 1, || format!("out-of-bounds {what} by a copy of variable length"))?;
                }
                let room = (sa.bytes.len() as u64 - a).min(da.bytes.len() as u64 - b);
                let mut i = 0u64;
                loop {
                    let k = wconst(i as u128, nb);
                    let c = self.d.wult(&k, &w);
                    if self.d.and(c, st.pc) == F {
                        break;
                    }
                    if i >= room {
                        return unsup("copy of unbounded length");
                    }
                    let p = Ptr { alloc: sp.alloc, off: Off::C(a + i) };
                    let q = Ptr { alloc: dp.alloc, off: Off::C(b + i) };
                    let old = da.bytes[(b + i) as usize].clone();
                    let new = sa.bytes[(a + i) as usize].clone();
                    let _ = p;
                    match self.merge_byte(c, &new, &old) {
                        Some(m) => {
                            let mut s2 = st.clone();
                            s2.pc = self.d.and(st.pc, c);
                            self.write(&mut s2, &q, &[m], 1)?;
                            st.mem = s2.mem;
                        }
                        None => return unsup("pointer copy of symbolic length"),
                    }
                    i += 1;
                }
                Ok(())
            }
        }
    }
    fn assign(&mut self, st: &mut State, fr: &Frame, p: &Place, v: Vec<Byte>) -> R<()> {
        if p.projection.is_empty() {
            let id = fr.base + p.local as u32;
            let (_, align, _) = fr.body.locals[p.local];
            self.aligns.borrow_mut().insert(id, align);
            let hot = self.level > 0;
            match st.mem.get_mut(&id) {
                Some(a) => {
                    let a = Rc::make_mut(a);
                    a.bytes = v;
                    a.hot |= hot;
                }
                None => {
                    st.mem.insert(id, Rc::new(Alloc { bytes: v, align, kind: Kind::Local, len: None, hot }));
                }
            }
            return Ok(());
        }
        let q = self.place(st, fr, p)?;
        self.write(st, &q.ptr, &v, q.align)
    }

    // ---- control flow -----------------------------------------------------------------------------
    fn killed(&mut self, st: &State, e: Stop) {
        match e {
            Stop::Dead => {}
            Stop::Unsup(m) => {
                let pc = st.pc;
                self.event(EK::Unsup, st, pc, vec![], m);
            }
        }
    }
    pub fn panic_event(&mut self, st: &State, msg: String) {
        let pc = st.pc;
        self.event(EK::Panic, st, pc, vec![], msg);
    }

    /// Interpret from `bb` until `stop` (or the return) on every path.
    fn run(&mut self, fr: &Frame, st: State, bb: usize, stop: Option<usize>) -> Vec<State> {
        let mut work = vec![(st, bb)];
        let mut out = vec![];
        let body = fr.body.clone();
        'next: while let Some((mut st, mut bb)) = work.pop() {
            loop {
                if Some(bb) == stop {
                    out.push(st);
                    continue 'next;
                }
                self.steps += 1;
                if self.steps > self.max_steps || self.d.late || self.deadline.map(|d| std::time::Instant::now() > d).unwrap_or(false) {
                    self.killed(&st, Stop::Unsup("analysis budget exhausted".into()));
                    continue 'next;
                }
                if fr.inst.local {
                    self.stats.blocks.insert((body.id, bb));
                }
                let block = &body.body.blocks[bb];
                for (si, s) in block.statements.iter().enumerate() {
                    self.stack.last_mut().unwrap().1 = s.source_info.span;
                    if fr.inst.local {
                        self.d.site = ((body.id as u64) << 32) | ((bb as u64) << 12) | si as u64;
                    }
                    if let Err(e) = self.statement(&mut st, fr, s) {
                        self.killed(&st, e);
                        continue 'next;
                    }
                }
                let t = &block.terminator;
                self.stack.last_mut().unwrap().1 = t.source_info.span;
                if fr.inst.local {
                    self.d.site = ((body.id as u64) << 32) | ((bb as u64) << 12) | 0xfff;
                }
                match &t.kind {
                    TerminatorKind::Goto { target } => bb = *target,
                    TerminatorKind::Return => {
                        out.push(st);
                        continue 'next;
                    }
                    TerminatorKind::Unreachable => {
                        let _ = self.ub::<()>(&st, "unreachable code reached");
                        continue 'next;
                    }
                    TerminatorKind::Resume | TerminatorKind::Abort => continue 'next,
                    TerminatorKind::Drop { place, target, .. } => {
                        let r = (|| -> R<Option<(Instance, Vec<Byte>)>> {
                            let p = self.place(&mut st, fr, place)?;
                            let i = Instance::resolve_drop_in_place(p.ty);
                            if i.is_empty_shim() {
                                return Ok(None);
                            }
                            Ok(Some((i, self.place_ptr(&p))))
                        })();
                        match r {
                            Ok(None) => bb = *target,
                            Ok(Some((i, a))) => {
                                let rs = self.call(st, i, vec![a], vec![], false);
                                for (s, _) in rs {
                                    work.push((s, *target));
                                }
                                continue 'next;
                            }
                            Err(e) => {
                                self.killed(&st, e);
                                continue 'next;
                            }
                        }
                    }
                    TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                        self.stats.asserts += 1;
                        let r = (|| -> R<()> {
                            let b = self.operand(&mut st, fr, cond)?;
                            let mut c = self.word(&mut st, &b)?[0];
                            if !*expected {
                                c ^= 1;
                            }
                            if c == T {
                                return Ok(());
                            }
                            let c = self.d.restrict(c, st.pc);
                            if c == T {
                                return Ok(());
                            }
                            if self.d.b.class(c) & SECRET != 0 {
                                let pc = st.pc;
                                self.event(EK::SecretBranch, &st.clone(), pc, vec![c], "run-time check on secret data".into());
                            }
                            let bad = self.d.and(st.pc, c ^ 1);
                            if bad != F {
                                let m = msg.description().unwrap_or("assertion").to_string();
                                let mut s2 = st.clone();
                                s2.pc = bad;
                                self.panic_event(&s2, m);
                            }
                            st.pc = self.d.and(st.pc, c);
                            if st.pc == F {
                                return Err(Stop::Dead);
                            }
                            Ok(())
                        })();
                        match r {
                            Ok(()) => bb = *target,
                            Err(e) => {
                                self.killed(&st, e);
                                continue 'next;
                            }
                        }
                    }
                    TerminatorKind::SwitchInt { discr, targets } => {
                        self.stats.branches += 1;
                        let r = (|| -> R<Sc> {
                            let b = self.operand(&mut st, fr, discr)?;
                            self.sc(&mut st, &b)
                        })();
                        let s = match r {
                            Ok(s) => s,
                            Err(e) => {
                                self.killed(&st, e);
                                continue 'next;
                            }
                        };
                        let s = match s {
                            Sc::W(w) => {
                                let pc = st.pc;
                                let w: W = w.iter().map(|b| self.d.restrict(*b, pc)).collect();
                                self.norm(w)
                            }
                            s => s,
                        };
                        match s {
                            Sc::C(v) => {
                                bb = targets.branches().find(|(x, _)| *x == v).map(|x| x.1).unwrap_or(targets.otherwise());
                            }
                            Sc::P(_) => {
                                bb = targets.otherwise();
                            }
                            Sc::W(w) => {
                                self.stats.sym_branches += 1;
                                if self.d.wclass(&w) & SECRET != 0 {
                                    let pc = st.pc;
                                    self.event(EK::SecretBranch, &st.clone(), pc, w.clone(), "branch on secret data".into());
                                }
                                let n = w.len();
                                let mut rest = st.pc;
                                let mut todo: Vec<(B, usize)> = vec![];
                                for (v, t) in targets.branches() {
                                    let k = wconst(v, n);
                                    let c = self.d.weq(&w, &k);
                                    let p = self.d.and(rest, c);
                                    rest = self.d.and(rest, c ^ 1);
                                    if p != F {
                                        match todo.iter_mut().find(|x| x.1 == t) {
                                            Some(x) => x.0 = self.d.or(x.0, p),
                                            None => todo.push((p, t)),
                                        }
                                    }
                                }
                                if rest != F {
                                    let t = targets.otherwise();
                                    match todo.iter_mut().find(|x| x.1 == t) {
                                        Some(x) => x.0 = self.d.or(x.0, rest),
                                        None => todo.push((rest, t)),
                                    }
                                }
                                if todo.len() == 1 {
                                    st.pc = todo[0].0;
                                    bb = todo[0].1;
                                    continue;
                                }
                                let join = body.ipdom[bb];
                                let exit = body.body.blocks.len();
                                // formatting code of core: keep the cases apart until the function returns
                                // (the number of digits is a case of the value, not a joined quantity)
                                let apart = !fr.inst.local && fr.inst.name.contains("fmt::");
                                let j = match join {
                                    Some(x) if x != exit && !apart => Some(x),
                                    _ => None,
                                };
                                // the region ends at the outer stop at the latest
                                let mut res = vec![];
                                for (p, t) in todo {
                                    let mut s2 = st.clone();
                                    s2.pc = p;
                                    res.extend(self.run(fr, s2, t, j));
                                }
                                drop(st);
                                let res = self.merge(fr, j, res);
                                match j {
                                    Some(x) => {
                                        for s in res {
                                            work.push((s, x));
                                        }
                                    }
                                    None => out.extend(res),
                                }
                                continue 'next;
                            }
                        }
                    }
                    TerminatorKind::Call { func, args, destination, target, .. } => {
                        self.stats.calls += 1;
                        if fr.inst.local {
                            self.stats.sites.insert((body.id, bb));
                        }
                        let rs = match self.do_call(&mut st, fr, func, args) {
                            Ok(r) => r,
                            Err(e) => {
                                self.killed(&st, e);
                                continue 'next;
                            }
                        };
                        let Some(target) = target else { continue 'next };
                        let mut next = vec![];
                        for (mut s, v) in rs {
                            match self.assign(&mut s, fr, destination, v) {
                                Ok(()) => next.push(s),
                                Err(e) => self.killed(&s, e),
                            }
                        }
                        if next.len() == 1 {
                            st = next.pop().unwrap();
                            bb = *target;
                        } else {
                            for s in next {
                                work.push((s, *target));
                            }
                            continue 'next;
                        }
                    }
                    TerminatorKind::InlineAsm { .. } => {
                        self.stats.asm += 1;
                        self.killed(&st, Stop::Unsup("inline assembly".into()));
                        continue 'next;
                    }
                }
            }
        }
        out
    }

    fn do_call(&mut self, st: &mut State, fr: &Frame, func: &Operand, args: &[Operand]) -> R<Ret> {
        let fty = self.operand_ty(fr, func)?;
        let kind = self.kind(fty);
        let mut spread = false;
        let mut vals = vec![];
        let mut tys = vec![];
        for a in args {
            vals.push(self.operand(st, fr, a)?);
            tys.push(self.operand_ty(fr, a)?);
        }
        let inst = match &*kind {
            TyKind::RigidTy(RigidTy::FnDef(d, a)) => match self.resolved.get(&fty) {
                Some(i) => *i,
                None => {
                    let i = Instance::resolve(*d, a).map_err(|e| Stop::Unsup(format!("{e:?}")))?;
                    self.resolved.insert(fty, i);
                    i
                }
            },
            TyKind::RigidTy(RigidTy::FnPtr(_)) => {
                let b = self.operand(st, fr, func)?;
                let s = self.sc(st, &b)?;
                match s {
                    Sc::P(p) => match self.alloc_of(st, p.alloc).map(|a| a.kind.clone()) {
                        Some(Kind::Fn(i)) => {
                            // a closure behind a function pointer: it captures nothing, and its arguments are spread
                            if matches!(&*self.kind(i.ty()), TyKind::RigidTy(RigidTy::Closure(..))) || i.kind == InstanceKind::Shim && self.info(i).rust_call {
                                spread = true;
                                vals.insert(0, vec![]);
                            }
                            i
                        }
                        _ => return self.ub(st, "call through a pointer that is not a function"),
                    },
                    _ => return self.ub(st, "call through an integer"),
                }
            }
            TyKind::RigidTy(RigidTy::Closure(d, a)) => Instance::resolve_closure(*d, a, ClosureKind::FnOnce).map_err(|e| Stop::Unsup(format!("{e:?}")))?,
            _ => return unsup(format!("call of {fty}")),
        };
        let s = st.clone();
        // drop the caller's copy so that in-place updates stay in place
        st.mem = Default::default();
        Ok(self.call(s, inst, vals, tys, spread))
    }

    /// Call an instance; every possible normal return is in the result.
    pub fn call(&mut self, mut st: State, inst: Instance, mut args: Vec<Vec<Byte>>, mut tys: Vec<Ty>, spread: bool) -> Ret {
        let info = self.info(inst);
        if self.trace {
            eprintln!("{:w$}call {} {:?}", "", info.name, args, w = self.stack.len());
        }
        // RustCall: untuple the last argument; a body that wants it whole regathers it
        if info.rust_call && !spread && !tys.is_empty() {
            if let TyKind::RigidTy(RigidTy::Tuple(ts)) = &*self.kind(*tys.last().unwrap()) {
                let tt = *tys.last().unwrap();
                let v = args.pop().unwrap();
                let r = (|| -> R<Vec<Vec<Byte>>> {
                    let lay = self.lay(tt)?;
                    let offs = self.field_offsets(&lay.shape, None)?;
                    let mut o = vec![];
                    for (i, t) in ts.iter().enumerate() {
                        let n = self.size(*t)?;
                        o.push(v[offs[i]..offs[i] + n].to_vec());
                    }
                    Ok(o)
                })();
                match r {
                    Ok(o) => args.extend(o),
                    Err(e) => {
                        self.killed(&st, e);
                        return vec![];
                    }
                }
            }
        }
        if let InstanceKind::Virtual { idx } = info.kind {
            let r = (|| -> R<Instance> {
                let vt = self.sc(&mut st, &args[0][self.pb..2 * self.pb])?;
                let mut p = self.ptr_from(&vt);
                p.off = self.off_add(&p.off, (idx * self.pb) as u64);
                let b = self.read(&mut st, &p, self.pb, self.pb as u64)?;
                let f = self.sc(&mut st, &b)?;
                match f {
                    Sc::P(p) => match self.alloc_of(&st, p.alloc).map(|a| a.kind.clone()) {
                        Some(Kind::Fn(i)) => Ok(i),
                        _ => unsup("virtual call target"),
                    },
                    _ => unsup("virtual call target"),
                }
            })();
            match r {
                Ok(i) => {
                    let pb = self.pb;
                    args[0].truncate(pb);
                    tys.clear();
                    return self.call(st, i, args, tys, true);
                }
                Err(e) => {
                    self.killed(&st, e);
                    return vec![];
                }
            }
        }
        if let Some(n) = info.intrinsic.clone() {
            self.stack.push((info.clone(), self.stack.last().map(|s| s.1).unwrap_or(info.inst.def.span())));
            let r = crate::intrin::intrinsic(self, &mut st, &n, &info, &args, &tys);
            self.stack.pop();
            match r {
                Ok(Some(rs)) => {
                    *self.stats.intr.entry(n).or_insert(0) += 1;
                    return match rs {
                        crate::intrin::Res::Val(v) => vec![(st, v)],
                        crate::intrin::Res::Many(m) => m,
                    };
                }
                Ok(None) if info.body.is_some() => {}
                Ok(None) => {
                    self.killed(&st, Stop::Unsup(format!("intrinsic {n}")));
                    return vec![];
                }
                Err(e) => {
                    self.killed(&st, e);
                    return vec![];
                }
            }
        }
        if !info.link.is_empty() {
            self.stack.push((info.clone(), self.stack.last().map(|s| s.1).unwrap_or(info.inst.def.span())));
            let r = crate::llvm::llvm(self, &mut st, &info, &args, &tys);
            self.stack.pop();
            return match r {
                Ok(v) => {
                    *self.stats.llvm.entry(info.link.clone()).or_insert(0) += 1;
                    vec![(st, v)]
                }
                Err(e) => {
                    self.killed(&st, e);
                    vec![]
                }
            };
        }
        if inst.is_empty_shim() {
            return vec![(st, vec![])];
        }
        if info.never && !info.local && !info.root {
            self.panic_event(&st, format!("call of {}", info.name));
            return vec![];
        }
        let body = match &info.body {
            Some(b) => b.clone(),
            None => {
                self.killed(&st, Stop::Unsup(format!("no body for {}", info.name)));
                return vec![];
            }
        };
        if self.stack.len() > self.max_depth {
            self.killed(&st, Stop::Unsup("call depth".into()));
            return vec![];
        }
        let nargs = body.body.arg_locals().len();
        if let Some(sp) = body.body.spread_arg() {
            let k = sp - 1;
            let tt = body.locals[sp].2;
            let r = (|| -> R<Vec<Byte>> {
                let lay = self.lay(tt)?;
                let offs = self.field_offsets(&lay.shape, None)?;
                let mut v = vec![Byte::U; lay.size];
                for (i, x) in args[k..].iter().enumerate() {
                    v[offs[i]..offs[i] + x.len()].clone_from_slice(x);
                }
                Ok(v)
            })();
            match r {
                Ok(v) => {
                    args.truncate(k);
                    args.push(v);
                }
                Err(e) => {
                    self.killed(&st, e);
                    return vec![];
                }
            }
        }
        if args.len() != nargs {
            self.killed(&st, Stop::Unsup(format!("argument count {} for {} of {}", args.len(), nargs, info.name)));
            return vec![];
        }
        if info.local {
            self.stats.funcs.insert(info.name.clone());
        } else if !info.root {
            self.stats.core_funcs.insert(info.name.clone());
        }
        let summarise = self.summaries && info.local;
        let ev0 = self.events.len();
        let saved = if summarise { self.abstract_in(&mut st, &mut args) } else { false };
        if saved {
            self.level += 1;
            self.stats.summaries += 1;
        }
        // a pure function of its bytes: the result is remembered
        let key = if summarise && st.pc == T && self.statics.is_empty() { self.call_key(&args) } else { None };
        let cached = key.as_ref().and_then(|k| self.call_memo.get(&(inst, k.clone())).cloned());
        if let Some(v) = cached {
            self.stats.reused += 1;
            let mut v = (*v).clone();
            if saved {
                let lv = self.level;
                let mut memo: FxHashMap<B, B> = Default::default();
                for b in v.iter_mut() {
                    *b = self.expand_byte(lv, b, &mut memo);
                }
                self.level -= 1;
            }
            return vec![(st, v)];
        }
        let key = key.map(|k| (k, st.mem.clone()));
        let noted = self.noted;
        let base = self.next;
        let nl = body.locals.len() as u32;
        self.next += nl;
        let hot = self.level > 0;
        for (i, a) in args.into_iter().enumerate() {
            let (size, align, _) = body.locals[i + 1];
            debug_assert_eq!(size, a.len());
            self.aligns.borrow_mut().insert(base + i as u32 + 1, align);
            st.mem.insert(base + i as u32 + 1, Rc::new(Alloc { bytes: a, align, kind: Kind::Local, len: None, hot }));
        }
        let fr = Frame { inst: info.clone(), body: body.clone(), base };
        let span = self.stack.last().map(|s| s.1).unwrap_or(body.body.span);
        self.stack.push((info.clone(), span));
        let outer_site = self.d.site;
        let outs = self.run(&fr, st, 0, None);
        self.stack.pop();
        self.d.site = outer_site;
        let outs = if outs.len() > 1 { self.merge(&fr, None, outs) } else { outs };
        let mut ret = vec![];
        let mut memo: FxHashMap<B, B> = Default::default();
        let single = outs.len() == 1;
        for mut s in outs {
            let mut v = match s.mem.get(&base) {
                Some(a) => a.bytes.clone(),
                None => vec![Byte::U; body.locals[0].0],
            };
            for l in 0..nl {
                s.mem.remove(&(base + l));
            }
            if let Some((k, mem)) = &key {
                if single
                    && s.pc == T
                    && self.noted == noted
                    && self.statics.is_empty()
                    && v.iter().all(|b| !matches!(b, Byte::P(..)))
                    && mem.len() == s.mem.len()
                    && mem.iter().all(|(i, a)| s.mem.get(i).map_or(false, |b| Rc::ptr_eq(a, b)))
                {
                    self.call_memo.insert((inst, k.clone()), Rc::new(v.clone()));
                }
            }
            if saved {
                let lv = self.level;
                for b in v.iter_mut() {
                    *b = self.expand_byte(lv, b, &mut memo);
                }
                let ids: Vec<AId> = s.mem.iter().filter(|(_, a)| a.hot).map(|(i, _)| *i).collect();
                for id in ids {
                    let a = s.mem.get(&id).unwrap().clone();
                    let mut n = (*a).clone();
                    drop(a);
                    let mut ch = false;
                    for b in n.bytes.iter_mut() {
                        let x = self.expand_byte(lv, b, &mut memo);
                        if !x.same(b) {
                            *b = x;
                            ch = true;
                        }
                    }
                    if lv == 1 {
                        n.hot = false;
                        ch = true;
                    }
                    if ch {
                        s.mem.insert(id, Rc::new(n));
                    }
                }
                s.pc = self.d.expand(lv, s.pc, &mut memo);
                if s.pc == F {
                    continue;
                }
            }
            ret.push((s, v));
        }
        if saved {
            let lv = self.level;
            for k in ev0..self.events.len() {
                let c = self.events[k].cond;
                self.events[k].cond = self.d.expand(lv, c, &mut memo);
                for j in 0..self.events[k].bits.len() {
                    let c = self.events[k].bits[j];
                    self.events[k].bits[j] = self.d.expand(lv, c, &mut memo);
                }
                if let Some(mut s) = self.events[k].st.take() {
                    s.pc = self.d.expand(lv, s.pc, &mut memo);
                    let ids: Vec<AId> = s.mem.iter().filter(|(_, a)| a.hot && a.kind == Kind::Input).map(|(i, _)| *i).collect();
                    for id in ids {
                        let mut n = (**s.mem.get(&id).unwrap()).clone();
                        for b in n.bytes.iter_mut() {
                            *b = self.expand_byte(lv, b, &mut memo);
                        }
                        s.mem.insert(id, Rc::new(n));
                    }
                    self.events[k].st = Some(s);
                }
            }
            self.level -= 1;
        }
        ret
    }

    /// The arguments of a call that can reach no memory, as a key.
    fn call_key(&self, args: &[Vec<Byte>]) -> Option<Vec<u32>> {
        let mut k = vec![];
        for a in args {
            k.push(a.len() as u32);
            for b in a {
                match b {
                    Byte::U => k.push(0),
                    Byte::C(c) => k.push(0x100 | *c as u32),
                    Byte::S(s) => {
                        k.push(1);
                        k.extend_from_slice(&s.bits);
                        k.push(s.init);
                    }
                    Byte::P(..) => return None,
                }
            }
        }
        Some(k)
    }

    pub fn expand_byte(&mut self, lv: u8, b: &Byte, memo: &mut FxHashMap<B, B>) -> Byte {
        match b {
            Byte::S(s) => {
                if s.bits.iter().chain([&s.init]).all(|x| self.d.b.level(*x) < lv) {
                    return b.clone();
                }
                let bits = self.d.expand8(lv, &s.bits, memo);
                let init = self.d.expand(lv, s.init, memo);
                Byte::from_bits_init(bits, init)
            }
            Byte::P(p, i) => match &p.off {
                Off::S(w) if w.iter().any(|x| self.d.b.level(*x) >= lv) => {
                    let w: W = w.iter().map(|x| self.d.expand(lv, *x, memo)).collect();
                    let off = self.mk_off(w);
                    Byte::P(Rc::new(Ptr { alloc: p.alloc, off }), *i)
                }
                _ => b.clone(),
            },
            _ => b.clone(),
        }
    }

    /// Replace every complex secret byte the callee can see by a summary atom.
    fn abstract_in(&mut self, st: &mut State, args: &mut [Vec<Byte>]) -> bool {
        let lv = self.level + 1;
        let mut slot = 0usize;
        let mut map: FxHashMap<F8, F8> = Default::default();
        let mut any = false;
        let maxn = args.iter().map(|a| a.len()).max().unwrap_or(0);
        // a callee that sees nothing but its arguments is summarised for any value of them
        let closed = args.iter().flatten().all(|b| !matches!(b, Byte::P(..)));
        let all = closed && args.iter().flatten().any(|b| matches!(b, Byte::S(s) if s.init == T && self.d.complex(&s.bits)));
        for i in 0..maxn {
            for a in args.iter_mut() {
                if i < a.len() {
                    self.abs_byte(lv, &mut a[i], &mut slot, &mut map, &mut any, all);
                }
            }
        }
        // memory reachable from the arguments
        let mut ids: Vec<AId> = vec![];
        let mut todo: Vec<AId> = vec![];
        let push = |b: &Byte, todo: &mut Vec<AId>| {
            if let Byte::P(p, 0) = b {
                todo.push(p.alloc);
            }
        };
        for a in args.iter() {
            for b in a {
                push(b, &mut todo);
            }
        }
        while let Some(x) = todo.pop() {
            if ids.contains(&x) {
                continue;
            }
            if let Some(a) = st.mem.get(&x) {
                ids.push(x);
                for b in &a.bytes {
                    push(b, &mut todo);
                }
            }
        }
        let maxn = ids.iter().map(|i| st.mem[i].bytes.len()).max().unwrap_or(0);
        // interleave byte-wise
        let mut repl: FxHashMap<AId, Vec<Byte>> = Default::default();
        for i in 0..maxn {
            for id in &ids {
                let a = &st.mem[id];
                if i < a.bytes.len() {
                    if let Byte::S(_) = a.bytes[i] {
                        let mut b = repl.get(id).map(|v| v[i].clone()).unwrap_or_else(|| a.bytes[i].clone());
                        let mut ch = false;
                        self.abs_byte(lv, &mut b, &mut slot, &mut map, &mut ch, false);
                        if ch {
                            any = true;
                            repl.entry(*id).or_insert_with(|| st.mem[id].bytes.clone())[i] = b;
                        }
                    }
                }
            }
        }
        for (id, v) in repl {
            let a = Rc::make_mut(st.mem.get_mut(&id).unwrap());
            a.bytes = v;
            a.hot = true;
        }
        any
    }
    fn abs_byte(&mut self, lv: u8, b: &mut Byte, slot: &mut usize, map: &mut FxHashMap<F8, F8>, any: &mut bool, all: bool) {
        let Byte::S(s) = b else { return };
        if s.init != T || !(if all { self.d.secret(&s.bits) } else { self.d.complex(&s.bits) }) {
            return;
        }
        let f = s.bits;
        let r = match map.get(&f) {
            Some(r) => *r,
            None => {
                let r = self.d.define(lv, *slot, &f);
                *slot += 1;
                map.insert(f, r);
                r
            }
        };
        *any = true;
        *b = Byte::from_bits(r);
    }

    // ---- layout uses ------------------------------------------------------------------------
    /// Is the cast being executed one the crate wrote (directly, or as `ptr.cast()`)?
    fn user_cast(&self) -> bool {
        let n = self.stack.len();
        if n == 0 {
            return false;
        }
        let t = &self.stack[n - 1].0;
        if t.local || t.root {
            return true;
        }
        n > 1 && (self.stack[n - 2].0.local || self.stack[n - 2].0.root) && t.name.contains("::ptr::") && (t.name.ends_with("::cast") || t.name.contains("::cast::<"))
    }
    /// Types that only address bytes: casting to them relies on no layout.
    fn opaque_bytes(&mut self, t: Ty) -> bool {
        match &*self.kind(t) {
            TyKind::RigidTy(RigidTy::Uint(UintTy::U8)) | TyKind::RigidTy(RigidTy::Int(IntTy::I8)) => true,
            TyKind::RigidTy(RigidTy::Slice(_)) | TyKind::RigidTy(RigidTy::Str) | TyKind::RigidTy(RigidTy::Dynamic(..)) => true,
            TyKind::RigidTy(RigidTy::Tuple(l)) => l.is_empty(),
            TyKind::RigidTy(RigidTy::Array(e, _)) => {
                let e = *e;
                self.opaque_bytes(e)
            }
            _ => false,
        }
    }
    fn layout_use(&mut self, st: &State, from: Ty, to: Ty) {
        let key = (format!("{from}"), format!("{to}"));
        self.stats.transmutes.insert(key);
        if from == to {
            return;
        }
        let l = *self.loose.entry((from, to)).or_insert_with(|| {
            rustc_middle::ty::tls::with(|tcx| {
                let f = rustc_public::rustc_internal::internal(tcx, from);
                let t = rustc_public::rustc_internal::internal(tcx, to);
                if tcx.erase_and_anonymize_regions(f) == tcx.erase_and_anonymize_regions(t) {
                    return false;
                }
                crate::api::loose(tcx, f).is_some() || crate::api::loose(tcx, t).is_some()
            })
        });
        if l {
            self.event(EK::Ub, &st.clone(), st.pc, vec![], format!("reinterprets {from} as {to}, and the language does not fix the layout of one of them"));
        }
    }
}
