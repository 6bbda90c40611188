//! Forward abstract interpretation of monomorphic MIR.
use crate::bdd::{B, F, T};
use crate::dom::{Col, Dom, F8, SECRET};
use crate::fx::{FxHashMap, FxHashSet};
use crate::mem::*;
use crate::word::{wconst, wval, W};
use rustc_public::abi::*;
use rustc_public::crate_def::CrateDef;
use rustc_public::mir::alloc::{AllocId, GlobalAlloc};
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::target::{Endian, MachineInfo};
use rustc_public::ty::*;
use std::rc::Rc;

pub enum Stop {
    Dead,
    Unsup(String),
}
pub type R<X> = Result<X, Stop>;

pub fn unsup<X>(s: impl Into<String>) -> R<X> {
    Err(Stop::Unsup(s.into()))
}

#[derive(Clone, Debug)]
pub enum Sc {
    C(u128),
    W(W),
    P(Rc<Ptr>),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum EK {
    Panic,
    Ub,
    SecretBranch,
    SecretIndex,
    SecretDiv,
    Unsup,
}

#[derive(Clone)]
pub struct Ev {
    pub kind: EK,
    pub cond: B,
    pub bits: Vec<B>,
    pub msg: String,
    pub stack: Rc<Vec<String>>,
    pub st: Option<State>,
}

pub struct BodyInfo {
    pub body: Body,
    pub ipdom: Vec<Option<usize>>,
    pub live: Vec<Vec<bool>>,
    pub locals: Vec<(usize, u64, Ty)>,
    pub loop_head: Vec<bool>,
    /// constants a length could be compared with
    pub sizes: Vec<u64>,
    pub id: usize,
}

pub struct InstInfo {
    pub name: String,
    pub krate: String,
    pub kind: InstanceKind,
    pub local: bool,
    pub root: bool,
    pub body: Option<Rc<BodyInfo>>,
    pub rust_call: bool,
    pub intrinsic: Option<String>,
    pub link: String,
    pub inst: Instance,
    pub pub_name: String,
    pub never: bool,
}

pub struct Lay {
    pub size: usize,
    pub align: u64,
    pub shape: LayoutShape,
}

pub struct Frame {
    pub inst: Rc<InstInfo>,
    pub body: Rc<BodyInfo>,
    pub base: AId,
}

pub struct Place_ {
    pub ptr: Ptr,
    pub meta: Option<Sc>,
    pub ty: Ty,
    pub variant: Option<usize>,
    pub align: u64,
    pub direct: Option<usize>,
}

pub struct Interp {
    pub d: Dom,
    pub big: bool,
    pub pb: usize,
    pub next: AId,
    pub globals: FxHashMap<AId, Rc<Alloc>>,
    pub gmap: FxHashMap<AllocId, AId>,
    pub fnmap: FxHashMap<Instance, AId>,
    pub statics: FxHashMap<AId, (String, Rc<Alloc>)>,
    pub insts: FxHashMap<Instance, Rc<InstInfo>>,
    pub lays: FxHashMap<Ty, Rc<Lay>>,
    pub kinds: FxHashMap<Ty, Rc<TyKind>>,
    pub events: Vec<Ev>,
    pub loose: FxHashMap<(Ty, Ty), bool>,
    pub level: u8,
    pub steps: u64,
    pub max_steps: u64,
    pub stack: Vec<(Rc<InstInfo>, rustc_public::ty::Span)>,
    pub trace: bool,
    pub stats: Stats,
    pub site_bodies: Vec<Rc<BodyInfo>>,
    pub site_names: Vec<String>,
    pub site_local: Vec<bool>,
    pub panic_states: bool,
    pub local_crate: String,
    pub sim_name_cache: FxHashMap<Ty, (usize, Ty)>,
    pub locdummy: Option<AId>,
    pub max_depth: usize,
    pub summaries: bool,
    pub consts: FxHashMap<MirConst2, Vec<Byte>>,
    pub deadline: Option<std::time::Instant>,
    pub aligns: std::cell::RefCell<FxHashMap<AId, u64>>,
    pub addr_seen: std::cell::RefCell<crate::fx::FxHashSet<AId>>,
    pub needs: FxHashMap<Ty, Rc<crate::exec::Need>>,
    pub overflow_checks: bool,
    pub want_overflow: bool,
    pub resolved: FxHashMap<Ty, Instance>,
    pub call_memo: FxHashMap<(Instance, Vec<u32>), Rc<Vec<Byte>>>,
    /// number of events noted, merged or not
    pub noted: u64,
    /// report control flow, addresses and divisions that depend on secrets
    pub want_secret: bool,
}
pub type MirConst2 = usize;

#[derive(Default)]
pub struct Stats {
    pub funcs: FxHashSet<String>,
    pub core_funcs: FxHashSet<String>,
    pub blocks: FxHashSet<(usize, usize)>,
    pub sites: FxHashSet<(usize, usize)>,
    pub intr: FxHashMap<String, u64>,
    pub llvm: FxHashMap<String, u64>,
    pub branches: u64,
    pub sym_branches: u64,
    pub joins: u64,
    pub mem_checks: u64,
    pub asserts: u64,
    pub summaries: u64,
    pub reused: u64,
    pub calls: u64,
    pub exposed: u64,
    pub asm: u64,
    pub statics_touched: FxHashSet<String>,
    pub transmutes: FxHashSet<(String, String)>,
}

pub fn bits_of(sc: &Sc, n: usize, it: &Interp) -> W {
    match sc {
        Sc::C(v) => wconst(*v, n),
        Sc::W(w) => w.clone(),
        Sc::P(p) => it.addr_bits(p),
    }
}
pub fn mask(n: usize) -> u128 {
    if n >= 128 {
        !0
    } else {
        (1u128 << n) - 1
    }
}
pub fn sext(v: u128, n: usize) -> i128 {
    if n >= 128 {
        v as i128
    } else {
        ((v << (128 - n)) as i128) >> (128 - n)
    }
}

impl Interp {
    pub fn new(local_crate: &str) -> Self {
        let mi = MachineInfo::target();
        Interp {
            d: Dom::new(),
            big: mi.endian == Endian::Big,
            pb: mi.pointer_width.bytes(),
            next: 1,
            globals: Default::default(),
            gmap: Default::default(),
            fnmap: Default::default(),
            statics: Default::default(),
            insts: Default::default(),
            lays: Default::default(),
            kinds: Default::default(),
            events: vec![],
            loose: FxHashMap::default(),
            level: 0,
            steps: 0,
            max_steps: 40_000_000,
            stack: vec![],
            trace: std::env::var("AV_TRACE").is_ok(),
            stats: Default::default(),
            site_bodies: vec![],
            site_names: vec![],
            site_local: vec![],
            panic_states: false,
            local_crate: local_crate.to_string(),
            sim_name_cache: Default::default(),
            locdummy: None,
            max_depth: 400,
            summaries: true,
            consts: Default::default(),
            deadline: None,
            aligns: Default::default(),
            addr_seen: Default::default(),
            needs: Default::default(),
            overflow_checks: false,
            want_overflow: false,
            resolved: Default::default(),
            call_memo: Default::default(),
            noted: 0,
            want_secret: true,
        }
    }

    // ---- types ------------------------------------------------------------
    pub fn lay(&mut self, ty: Ty) -> R<Rc<Lay>> {
        if let Some(l) = self.lays.get(&ty) {
            return Ok(l.clone());
        }
        let l = match ty.layout() {
            Ok(l) => l,
            Err(e) => return unsup(format!("layout of {ty:?}: {e:?}")),
        };
        let shape = l.shape();
        let r = Rc::new(Lay { size: shape.size.bytes(), align: shape.abi_align, shape });
        self.lays.insert(ty, r.clone());
        Ok(r)
    }
    pub fn kind(&mut self, ty: Ty) -> Rc<TyKind> {
        if let Some(k) = self.kinds.get(&ty) {
            return k.clone();
        }
        let k = Rc::new(ty.kind());
        self.kinds.insert(ty, k.clone());
        k
    }
    pub fn size(&mut self, ty: Ty) -> R<usize> {
        Ok(self.lay(ty)?.size)
    }
    /// (bits, signed) of an integer-like type
    pub fn int_ty(&mut self, ty: Ty) -> Option<(usize, bool)> {
        match &*self.kind(ty) {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => Some((8, false)),
                RigidTy::Char => Some((32, false)),
                RigidTy::Int(i) => Some((i.num_bytes_t(self.pb) * 8, true)),
                RigidTy::Uint(i) => Some((i.num_bytes_t(self.pb) * 8, false)),
                RigidTy::RawPtr(..) | RigidTy::Ref(..) | RigidTy::FnPtr(..) => Some((self.pb * 8, false)),
                RigidTy::Pat(t, _) => self.int_ty(*t),
                _ => None,
            },
            _ => None,
        }
    }
    pub fn pointee(&mut self, ty: Ty) -> Option<Ty> {
        match &*self.kind(ty) {
            TyKind::RigidTy(RigidTy::RawPtr(t, _)) | TyKind::RigidTy(RigidTy::Ref(_, t, _)) => Some(*t),
            TyKind::RigidTy(RigidTy::Pat(t, _)) => self.pointee(*t),
            _ => None,
        }
    }
    pub fn is_unsized(&mut self, ty: Ty) -> R<bool> {
        Ok(match &*self.kind(ty) {
            TyKind::RigidTy(RigidTy::Slice(_)) | TyKind::RigidTy(RigidTy::Str) | TyKind::RigidTy(RigidTy::Dynamic(..)) => true,
            _ => self.lay(ty)?.shape.is_unsized(),
        })
    }
    pub fn elem_ty(&mut self, ty: Ty) -> Option<Ty> {
        match &*self.kind(ty) {
            TyKind::RigidTy(RigidTy::Slice(t)) | TyKind::RigidTy(RigidTy::Array(t, _)) => Some(*t),
            TyKind::RigidTy(RigidTy::Str) => Some(Ty::unsigned_ty(UintTy::U8)),
            _ => None,
        }
    }

    // ---- events ---------------------------------------------------------------
    pub fn span_str(sp: &rustc_public::ty::Span) -> String {
        let l = sp.get_lines();
        let f = sp.get_filename();
        let f = f.to_string();
        let f = f.rsplit_once("/src/").map(|x| format!("src/{}", x.1)).unwrap_or(f);
        format!("{}:{}", f, l.start_line)
    }
    pub fn stack_str(&self) -> Vec<String> {
        self.stack
            .iter()
            .rev()
            .filter(|(i, _)| i.local || i.root)
            .map(|(i, s)| format!("{} ({})", i.name, Self::span_str(s)))
            .chain(self.stack.last().filter(|(i, _)| !i.local && !i.root).map(|(i, s)| format!("[in {} ({})]", i.name, Self::span_str(s))))
            .collect()
    }
    pub fn event(&mut self, kind: EK, st: &State, cond: B, bits: Vec<B>, msg: String) {
        if cond == F || (!self.want_secret && matches!(kind, EK::SecretBranch | EK::SecretIndex | EK::SecretDiv)) {
            return;
        }
        self.noted += 1;
        if self.trace {
            eprintln!("EVENT {kind:?} {msg} {:?}", self.stack_str());
        }
        let stack = Rc::new(self.stack_str());
        // merge repeated events of the same place
        if !(kind == EK::Panic && self.panic_states) {
            let n = self.events.len();
            for k in (n.saturating_sub(400)..n).rev() {
                if self.events[k].kind == kind && self.events[k].msg == msg && self.events[k].stack == stack {
                    match kind {
                        EK::Panic | EK::Ub | EK::Unsup => {
                            let c = self.d.or(self.events[k].cond, cond);
                            self.events[k].cond = c;
                            return;
                        }
                        _ => {
                            if self.events[k].bits == bits && self.events[k].cond == cond {
                                return;
                            }
                        }
                    }
                }
            }
        }
        let st = if kind == EK::Panic && self.panic_states { Some(st.clone()) } else { None };
        self.events.push(Ev { kind, cond, bits, msg, stack, st });
    }
    /// `bad` may hold here: report it and continue on the rest.
    pub fn require(&mut self, st: &mut State, ok: B, msg: impl FnOnce() -> String) -> R<()> {
        self.stats.mem_checks += 1;
        if ok == T {
            return Ok(());
        }
        let bad = self.d.and(st.pc, ok ^ 1);
        if bad == F {
            return Ok(());
        }
        let m = msg();
        self.event(EK::Ub, &st.clone(), bad, vec![], m);
        st.pc = self.d.and(st.pc, ok);
        if st.pc == F {
            return Err(Stop::Dead);
        }
        Ok(())
    }
    pub fn ub<X>(&mut self, st: &State, msg: impl Into<String>) -> R<X> {
        self.event(EK::Ub, st, st.pc, vec![], msg.into());
        Err(Stop::Dead)
    }

    // ---- pointers ----------------------------------------------------------------
    pub fn base_addr(&self, a: AId, align: u64) -> u64 {
        if a == 0 {
            return 0;
        }
        let al = align.max(1);
        let slot = 0x1_0000u64 * 2;
        (0x1000_0000 + (a as u64 % 0x1000) * slot) / (2 * al) * (2 * al) + al
    }
    pub fn alloc_of<'a>(&'a self, st: &'a State, a: AId) -> Option<&'a Rc<Alloc>> {
        st.mem.get(&a).or_else(|| self.globals.get(&a)).or_else(|| self.statics.get(&a).map(|s| &s.1))
    }
    pub fn addr_bits(&self, p: &Ptr) -> W {
        self.addr_seen.borrow_mut().insert(p.alloc);
        let align = self.align_hint(p.alloc);
        let base = self.base_addr(p.alloc, align);
        let n = self.pb * 8;
        match &p.off {
            Off::C(o) => wconst(base.wrapping_add(*o) as u128 & mask(n), n),
            Off::S(w) => {
                // base is a constant: add it without touching the manager is not possible, keep the
                // relation exact by using a wide constant addition
                let it = self as *const Interp as *mut Interp;
                // SAFETY: single threaded, no outstanding borrow of d
                unsafe { (*it).d.wadd(w, &wconst(base as u128, n)) }
            }
        }
    }
    pub fn align_hint(&self, a: AId) -> u64 {
        self.aligns.borrow().get(&a).copied().unwrap_or(1)
    }
    pub fn new_alloc(&mut self, st: &mut State, bytes: Vec<Byte>, align: u64, kind: Kind) -> AId {
        let id = self.next;
        self.next += 1;
        self.aligns.borrow_mut().insert(id, align);
        let hot = self.level > 0;
        st.mem.insert(id, Rc::new(Alloc { bytes, align, kind, len: None, hot }));
        id
    }
    pub fn ptr_bytes(&self, p: Rc<Ptr>) -> Vec<Byte> {
        (0..self.pb).map(|i| Byte::P(p.clone(), i as u8)).collect()
    }
    pub fn mkptr(&self, alloc: AId, off: u64) -> Vec<Byte> {
        self.ptr_bytes(Rc::new(Ptr { alloc, off: Off::C(off) }))
    }
    pub fn off_w(&self, o: &Off) -> W {
        match o {
            Off::C(c) => wconst(*c as u128, self.pb * 8),
            Off::S(w) => (**w).clone(),
        }
    }
    pub fn mk_off(&self, w: W) -> Off {
        match wval(&w) {
            Some(v) => Off::C(v as u64),
            None => Off::S(Rc::new(w)),
        }
    }
    pub fn off_add(&mut self, o: &Off, k: u64) -> Off {
        match o {
            Off::C(c) => Off::C(c.wrapping_add(k) & mask(self.pb * 8) as u64),
            Off::S(w) => {
                if k == 0 {
                    return o.clone();
                }
                let kk = wconst(k as u128 & mask(self.pb * 8), self.pb * 8);
                let r = self.d.wadd(w, &kk);
                self.mk_off(r)
            }
        }
    }
    pub fn off_add_w(&mut self, o: &Off, k: &Sc) -> Off {
        match k {
            Sc::C(c) => self.off_add(o, *c as u64),
            _ => {
                let w = bits_of(k, self.pb * 8, self);
                let ow = self.off_w(o);
                let r = self.d.wadd(&ow, &w);
                self.mk_off(r)
            }
        }
    }

    // ---- scalars ---------------------------------------------------------------------
    pub fn sc(&mut self, st: &mut State, bytes: &[Byte]) -> R<Sc> {
        let n = bytes.len();
        let mut allc = true;
        for b in bytes {
            match b {
                Byte::C(_) => {}
                Byte::U => return self.ub(st, "uninitialised memory used as a value"),
                _ => {
                    allc = false;
                }
            }
        }
        if allc {
            let mut v = 0u128;
            for i in 0..n.min(16) {
                let b = if self.big { &bytes[n - 1 - i] } else { &bytes[i] };
                if let Byte::C(c) = b {
                    v |= (*c as u128) << (8 * i);
                }
            }
            if n <= 16 {
                return Ok(Sc::C(v));
            }
        }
        if n == self.pb {
            if let Byte::P(p, 0) = &bytes[0] {
                let ok = bytes.iter().enumerate().all(|(i, b)| matches!(b, Byte::P(q, j) if *j as usize == i && (Rc::ptr_eq(p, q) || p == q)));
                if ok {
                    return Ok(Sc::P(p.clone()));
                }
            }
        }
        let mut w = Vec::with_capacity(n * 8);
        for i in 0..n {
            let b = if self.big { &bytes[n - 1 - i] } else { &bytes[i] };
            match b {
                Byte::C(c) => w.extend_from_slice(&crate::dom::byte_bits(*c)),
                Byte::S(s) => {
                    let (bits, init) = (s.bits, s.init);
                    if init != T {
                        self.require(st, init, || "possibly uninitialised memory used as a value".into())?;
                    }
                    w.extend_from_slice(&bits);
                }
                Byte::P(p, i) => {
                    let a = self.addr_bits(p);
                    let i = if self.big { self.pb - 1 - *i as usize } else { *i as usize };
                    w.extend_from_slice(&a[8 * i..8 * i + 8]);
                }
                Byte::U => unreachable!(),
            }
        }
        Ok(self.norm(w))
    }
    pub fn norm(&self, w: W) -> Sc {
        if w.len() <= 128 {
            if let Some(v) = wval(&w) {
                return Sc::C(v);
            }
        }
        Sc::W(w)
    }
    pub fn bytes_of(&self, s: &Sc, n: usize) -> Vec<Byte> {
        match s {
            Sc::P(p) => {
                if n == self.pb {
                    return self.ptr_bytes(p.clone());
                }
                let w = self.addr_bits(p);
                self.bytes_of(&Sc::W(w[..(8 * n).min(w.len())].to_vec()), n)
            }
            Sc::C(v) => {
                let mut r: Vec<Byte> = (0..n).map(|i| Byte::C(if i < 16 { (v >> (8 * i)) as u8 } else { 0 })).collect();
                if self.big {
                    r.reverse();
                }
                r
            }
            Sc::W(w) => {
                let mut r: Vec<Byte> = (0..n)
                    .map(|i| {
                        let mut b = [F; 8];
                        for j in 0..8 {
                            if 8 * i + j < w.len() {
                                b[j] = w[8 * i + j];
                            }
                        }
                        Byte::from_bits(b)
                    })
                    .collect();
                if self.big {
                    r.reverse();
                }
                r
            }
        }
    }
    pub fn word(&mut self, st: &mut State, bytes: &[Byte]) -> R<W> {
        let s = self.sc(st, bytes)?;
        Ok(bits_of(&s, bytes.len() * 8, self))
    }
    pub fn bool_byte(&self, b: B) -> Vec<Byte> {
        let mut r = [F; 8];
        r[0] = b;
        vec![Byte::from_bits(r)]
    }
    pub fn usize_bytes(&self, v: u64) -> Vec<Byte> {
        self.bytes_of(&Sc::C(v as u128), self.pb)
    }

    // ---- memory access ----------------------------------------------------------------
    /// Candidate constant offsets of a symbolic offset.
    fn cands(&mut self, st: &State, w: &W, limit: usize) -> R<Vec<(u64, B)>> {
        let mut out = vec![];
        // enumerate the distinct non-constant bits
        let mut nc: Vec<B> = vec![];
        for b in w {
            if *b != T && *b != F && !nc.contains(b) && !nc.contains(&(b ^ 1)) {
                nc.push(*b);
            }
        }
        if nc.len() <= 10 {
            for m in 0..(1u32 << nc.len()) {
                let mut v = 0u64;
                let mut c = st.pc;
                for (i, b) in w.iter().enumerate() {
                    let x = if *b == T {
                        true
                    } else if *b == F {
                        false
                    } else if let Some(k) = nc.iter().position(|q| q == b) {
                        m >> k & 1 != 0
                    } else {
                        let k = nc.iter().position(|q| *q == b ^ 1).unwrap();
                        m >> k & 1 == 0
                    };
                    if x && i < 64 {
                        v |= 1 << i;
                    }
                }
                for (k, q) in nc.iter().enumerate() {
                    let lit = if m >> k & 1 != 0 { *q } else { q ^ 1 };
                    c = self.d.and(c, lit);
                    if c == F {
                        break;
                    }
                }
                if c != F {
                    // condition without pc
                    let mut cc = T;
                    for (k, q) in nc.iter().enumerate() {
                        let lit = if m >> k & 1 != 0 { *q } else { q ^ 1 };
                        cc = self.d.and(cc, lit);
                    }
                    out.push((v, cc));
                }
            }
        } else {
            for v in 0..=limit as u64 {
                let k = wconst(v as u128, w.len());
                let c = self.d.weq(w, &k);
                if self.d.and(c, st.pc) != F {
                    out.push((v, c));
                }
            }
        }
        Ok(out)
    }

    /// a mutable static enters the state when it is first written
    fn mem_mut<'a>(&self, st: &'a mut State, a: AId) -> &'a mut Alloc {
        let al = st.mem.entry(a).or_insert_with(|| self.statics[&a].1.clone());
        Rc::make_mut(al)
    }
    fn check_alloc(&mut self, st: &State, p: &Ptr, n: usize, write: bool) -> R<Rc<Alloc>> {
        if p.alloc == 0 {
            return self.ub(st, "memory access through a pointer without an object");
        }
        let a = match self.alloc_of(st, p.alloc) {
            Some(a) => a.clone(),
            None => return self.ub(st, "memory access through a dangling pointer"),
        };
        if matches!(a.kind, Kind::Fn(_)) {
            return self.ub(st, "data access through a function pointer");
        }
        if write && a.kind == Kind::Const {
            return self.ub(st, "write to immutable memory");
        }
        let _ = n;
        Ok(a)
    }
    fn check_align(&mut self, st: &mut State, alloc: AId, a: &Alloc, off: &Off, align: u64) -> R<()> {
        if align <= 1 {
            return Ok(());
        }
        if a.align < align && self.addr_seen.borrow().contains(&alloc) {
            // the code has looked at the address: what it did depends on it, as laid out here,
            // where nothing is aligned better than its type asks
            let base = self.base_addr(alloc, a.align);
            let w = self.off_w(off);
            let w = self.d.wadd(&w, &wconst(base as u128, self.pb * 8));
            let k = align.trailing_zeros() as usize;
            let mut ok = T;
            for b in &w[..k] {
                ok = self.d.and(ok, b ^ 1);
            }
            return self.require(st, ok, || format!("access needs alignment {align}, the object only guarantees {}", a.align));
        }
        if a.align < align {
            return self.ub(st, format!("access needs alignment {align}, the object only guarantees {}", a.align));
        }
        match off {
            Off::C(o) => {
                if o % align != 0 {
                    return self.ub(st, format!("misaligned access: offset {o}, alignment {align}"));
                }
            }
            Off::S(w) => {
                let k = align.trailing_zeros() as usize;
                let mut ok = T;
                for b in &w[..k] {
                    ok = self.d.and(ok, b ^ 1);
                }
                self.require(st, ok, || "possibly misaligned access".into())?;
            }
        }
        Ok(())
    }
    fn check_bounds(&mut self, st: &mut State, a: &Alloc, off: &Off, n: usize, what: &str) -> R<()> {
        self.stats.mem_checks += 1;
        match (&a.len, off) {
            (None, Off::C(o)) => {
                if (*o as u128) + n as u128 > a.bytes.len() as u128 {
                    return self.ub(st, format!("out-of-bounds {what}: {n} bytes at offset {} of a {}-byte object", *o as i64, a.bytes.len()));
                }
            }
            (len, off) => {
                let nb = self.pb * 8;
                let lw = match len {
                    Some(w) => (**w).clone(),
                    None => wconst(a.bytes.len() as u128, nb),
                };
                let mut ow = self.off_w(off);
                ow.push(F);
                let mut nw = wconst(n as u128, nb);
                nw.push(F);
                let end = self.d.wadd(&ow, &nw);
                let mut l = lw;
                l.push(F);
                let bad = self.d.wult(&l, &end);
                self.require(st, bad ^ 1, || format!("out-of-bounds {what}: {n} bytes"))?;
            }
        }
        Ok(())
    }

    pub fn read(&mut self, st: &mut State, p: &Ptr, n: usize, align: u64) -> R<Vec<Byte>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let a = self.check_alloc(st, p, n, false)?;
        self.check_align(st, p.alloc, &a, &p.off, align)?;
        let unbounded = a.len.is_some();
        match &p.off {
            Off::C(o) => {
                self.check_bounds(st, &a, &p.off, n, "read")?;
                let o = *o as usize;
                if o + n > a.bytes.len() {
                    // tail of an input of any length
                    debug_assert!(unbounded);
                    return unsup("access to the unmodelled tail of an unbounded slice");
                }
                Ok(a.bytes[o..o + n].to_vec())
            }
            Off::S(w) => {
                let w = (**w).clone();
                if self.d.wclass(&w) & SECRET != 0 {
                    let pc = st.pc;
                    self.event(EK::SecretIndex, &st.clone(), pc, w.clone(), "memory read at a secret-dependent address".into());
                }
                self.read_sym(st, &a, &w, n)
            }
        }
    }

    fn read_sym(&mut self, st: &mut State, a: &Rc<Alloc>, w: &W, n: usize) -> R<Vec<Byte>> {
        // the table-lookup case: a window of at most 8 varying bits
        let lo = w.iter().position(|b| *b != T && *b != F).unwrap();
        let hi = w.len() - w.iter().rev().position(|b| *b != T && *b != F).unwrap();
        let mut s = (n.trailing_zeros() as usize).min(lo);
        if hi > s + 8 {
            s = lo;
        }
        if hi <= s + 8 && a.len.is_none() {
            let mut f: F8 = [F; 8];
            for j in 0..8 {
                if s + j < w.len() {
                    f[j] = w[s + j];
                }
            }
            let mut base = 0u64;
            for (i, b) in w.iter().enumerate() {
                if (i < s || i >= s + 8) && *b == T && i < 64 {
                    base |= 1 << i;
                }
            }
            let mut oob: Col = [0; 4];
            let mut ent: Vec<Option<usize>> = vec![None; 256];
            for v in 0..256usize {
                // entries that contradict constant bits of f are impossible
                let o = base + ((v as u64) << s);
                if o as usize + n <= a.bytes.len() {
                    ent[v] = Some(o as usize);
                } else {
                    oob[v >> 6] |= 1 << (v & 63);
                }
            }
            for (v, e) in ent.iter_mut().enumerate() {
                for j in 0..8 {
                    let bit = v >> j & 1 != 0;
                    if (f[j] == T && !bit) || (f[j] == F && bit) {
                        *e = None;
                        oob[v >> 6] &= !(1 << (v & 63));
                    }
                }
            }
            if oob != [0; 4] {
                let bad = self.d.apply(&f, &oob);
                self.require(st, bad ^ 1, || format!("table read out of bounds ({}-byte object)", a.bytes.len()))?;
            }
            let mut all_const = true;
            let mut ptrs = false;
            for e in ent.iter().flatten() {
                for i in 0..n {
                    match a.bytes[e + i] {
                        Byte::C(_) => {}
                        Byte::P(..) => ptrs = true,
                        _ => all_const = false,
                    }
                }
            }
            if !ptrs && all_const {
                let mut out = Vec::with_capacity(n);
                // entries not reachable: use the value of some table entry so that the column stays
                // canonical: take the table content at that offset when it exists
                for i in 0..n {
                    let mut bits = [F; 8];
                    for j in 0..8 {
                        let mut col: Col = [0; 4];
                        for v in 0..256usize {
                            let o = base + ((v as u64) << s);
                            if o as usize + n <= a.bytes.len() {
                                if let Byte::C(c) = a.bytes[o as usize + i] {
                                    if c >> j & 1 != 0 {
                                        col[v >> 6] |= 1 << (v & 63);
                                    }
                                }
                            }
                        }
                        bits[j] = self.d.apply(&f, &col);
                    }
                    out.push(Byte::from_bits(bits));
                }
                return Ok(out);
            }
        }
        let limit = a.bytes.len();
        let cs = self.cands(st, w, limit)?;
        let mut acc: Option<Vec<Byte>> = None;
        let mut okc = F;
        for (o, c) in cs {
            let p = o as usize;
            let off = Off::C(o);
            if a.len.is_some() {
                // bound against the symbolic length on this candidate only
                let mut s2 = st.clone();
                s2.pc = self.d.and(st.pc, c);
                match self.check_bounds(&mut s2, a, &off, n, "read") {
                    Ok(()) => {}
                    Err(Stop::Dead) => continue,
                    Err(e) => return Err(e),
                }
            }
            if p + n > a.bytes.len() {
                if a.len.is_some() {
                    return unsup("access to the unmodelled tail of an unbounded slice");
                }
                let bad = self.d.and(st.pc, c);
                self.event(EK::Ub, &st.clone(), bad, vec![], format!("out-of-bounds read: {n} bytes at offset {o} of a {}-byte object", a.bytes.len()));
                continue;
            }
            okc = self.d.or(okc, c);
            let v = a.bytes[p..p + n].to_vec();
            acc = Some(match acc {
                None => v,
                Some(old) => {
                    let mut r = Vec::with_capacity(n);
                    for i in 0..n {
                        match self.merge_byte(c, &v[i], &old[i]) {
                            Some(b) => r.push(b),
                            None => return unsup("pointer table read at a symbolic index"),
                        }
                    }
                    r
                }
            });
        }
        st.pc = self.d.and(st.pc, okc);
        match acc {
            Some(a) if st.pc != F => Ok(a),
            _ => Err(Stop::Dead),
        }
    }

    pub fn write(&mut self, st: &mut State, p: &Ptr, bytes: &[Byte], align: u64) -> R<()> {
        let n = bytes.len();
        if n == 0 {
            return Ok(());
        }
        let a = self.check_alloc(st, p, n, true)?;
        self.check_align(st, p.alloc, &a, &p.off, align)?;
        match &p.off {
            Off::C(o) => {
                self.check_bounds(st, &a, &p.off, n, "write")?;
                let o = *o as usize;
                if o + n > a.bytes.len() {
                    return unsup("write to the unmodelled tail of an unbounded slice");
                }
                drop(a);
                let level = self.level;
                let al = self.mem_mut(st, p.alloc);
                al.hot |= level > 0;
                al.bytes[o..o + n].clone_from_slice(bytes);
                Ok(())
            }
            Off::S(w) => {
                let w = (**w).clone();
                if self.d.wclass(&w) & SECRET != 0 {
                    let pc = st.pc;
                    self.event(EK::SecretIndex, &st.clone(), pc, w.clone(), "memory write at a secret-dependent address".into());
                }
                let limit = a.bytes.len();
                let cs = self.cands(st, &w, limit)?;
                let mut nb = a.bytes.clone();
                let mut okc = F;
                for (o, c) in cs {
                    let pos = o as usize;
                    let off = Off::C(o);
                    if a.len.is_some() {
                        let mut s2 = st.clone();
                        s2.pc = self.d.and(st.pc, c);
                        match self.check_bounds(&mut s2, &a, &off, n, "write") {
                            Ok(()) => {}
                            Err(Stop::Dead) => continue,
                            Err(e) => return Err(e),
                        }
                    }
                    if pos + n > nb.len() {
                        if a.len.is_some() {
                            return unsup("write to the unmodelled tail of an unbounded slice");
                        }
                        let bad = self.d.and(st.pc, c);
                        self.event(EK::Ub, &st.clone(), bad, vec![], format!("out-of-bounds write: {n} bytes at offset {o} of a {}-byte object", a.bytes.len()));
                        continue;
                    }
                    okc = self.d.or(okc, c);
                    for i in 0..n {
                        match self.merge_byte(c, &bytes[i], &nb[pos + i]) {
                            Some(b) => nb[pos + i] = b,
                            None => return unsup("pointer write at a symbolic index"),
                        }
                    }
                }
                st.pc = self.d.and(st.pc, okc);
                if st.pc == F {
                    return Err(Stop::Dead);
                }
                let level = self.level;
                let al = self.mem_mut(st, p.alloc);
                al.hot |= level > 0;
                al.bytes = nb;
                Ok(())
            }
        }
    }

    // ---- joins --------------------------------------------------------------------------
    pub fn merge_byte(&mut self, c: B, a: &Byte, b: &Byte) -> Option<Byte> {
        if a.same(b) {
            return Some(a.clone());
        }
        match (a, b) {
            (Byte::P(p, i), Byte::P(q, j)) => {
                if p.alloc == q.alloc && i == j {
                    let x = self.off_w(&p.off);
                    let y = self.off_w(&q.off);
                    let w = self.d.wite(c, &x, &y);
                    let off = self.mk_off(w);
                    Some(Byte::P(Rc::new(Ptr { alloc: p.alloc, off }), *i))
                } else {
                    None
                }
            }
            (Byte::P(..), Byte::U) => Some(a.clone()),
            (Byte::U, Byte::P(..)) => Some(b.clone()),
            (Byte::P(..), _) | (_, Byte::P(..)) => None,
            _ => {
                let ia = match a {
                    Byte::U => F,
                    Byte::S(s) => s.init,
                    _ => T,
                };
                let ib = match b {
                    Byte::U => F,
                    Byte::S(s) => s.init,
                    _ => T,
                };
                let init = self.d.ite(c, ia, ib);
                let bits = match (a.bits(), b.bits()) {
                    (Some(x), Some(y)) => {
                        let mut r = [F; 8];
                        for j in 0..8 {
                            r[j] = self.d.ite(c, x[j], y[j]);
                        }
                        r
                    }
                    (Some(x), None) => x,
                    (None, Some(y)) => y,
                    _ => unreachable!(),
                };
                Some(Byte::from_bits_init(bits, init))
            }
        }
    }

    fn merge2(&mut self, fr: &Frame, at: Option<usize>, a: &State, b: &State) -> Option<State> {
        if !self.statics.is_empty() {
            let mut p = (a.clone(), b.clone());
            let mut miss = false;
            for (id, s) in &self.statics {
                let (x, y) = (a.mem.contains_key(id), b.mem.contains_key(id));
                if x != y {
                    miss = true;
                    if x { &mut p.1 } else { &mut p.0 }.mem.insert(*id, s.1.clone());
                }
            }
            if miss {
                return self.merge2(fr, at, &p.0, &p.1);
            }
        }
        let pc = self.d.or(a.pc, b.pc);
        let sel = self.d.restrict(a.pc, pc);
        let mut mem: FxHashMap<AId, Rc<Alloc>> = Default::default();
        let nl = fr.body.locals.len() as u32;
        for (id, x) in &a.mem {
            let is_local = *id >= fr.base && *id < fr.base + nl;
            if is_local {
                let l = (*id - fr.base) as usize;
                let live = match at {
                    Some(bb) => fr.body.live[bb][l],
                    None => l == 0,
                };
                if !live {
                    continue;
                }
            }
            match b.mem.get(id) {
                Some(y) => {
                    if Rc::ptr_eq(x, y) {
                        mem.insert(*id, x.clone());
                    } else {
                        let mut n = (**x).clone();
                        if x.bytes.len() != y.bytes.len() {
                            return None;
                        }
                        n.hot |= y.hot;
                        for i in 0..n.bytes.len() {
                            n.bytes[i] = self.merge_byte(sel, &x.bytes[i], &y.bytes[i])?;
                        }
                        mem.insert(*id, Rc::new(n));
                    }
                }
                None => {
                    if is_local {
                        let mut n = (**x).clone();
                        for i in 0..n.bytes.len() {
                            n.bytes[i] = self.merge_byte(sel, &x.bytes[i], &Byte::U)?;
                        }
                        mem.insert(*id, Rc::new(n));
                    }
                }
            }
        }
        for (id, y) in &b.mem {
            let is_local = *id >= fr.base && *id < fr.base + nl;
            if is_local && !a.mem.contains_key(id) {
                let l = (*id - fr.base) as usize;
                let live = match at {
                    Some(bb) => fr.body.live[bb][l],
                    None => l == 0,
                };
                if live {
                    let mut n = (**y).clone();
                    for i in 0..n.bytes.len() {
                        n.bytes[i] = self.merge_byte(sel, &Byte::U, &y.bytes[i])?;
                    }
                    mem.insert(*id, Rc::new(n));
                }
            }
        }
        Some(State { mem, pc })
    }
    pub fn merge(&mut self, fr: &Frame, at: Option<usize>, states: Vec<State>) -> Vec<State> {
        let mut out: Vec<State> = vec![];
        'n: for s in states {
            for k in 0..out.len() {
                if let Some(m) = self.merge2(fr, at, &out[k].clone(), &s) {
                    out[k] = m;
                    self.stats.joins += 1;
                    continue 'n;
                }
            }
            out.push(s);
        }
        out
    }

    // ---- globals -------------------------------------------------------------------------
    pub fn fn_alloc(&mut self, i: Instance) -> AId {
        if let Some(&a) = self.fnmap.get(&i) {
            return a;
        }
        let id = self.next;
        self.next += 1;
        self.globals.insert(id, Rc::new(Alloc { bytes: vec![Byte::C(0)], align: 4, kind: Kind::Fn(i), len: None, hot: false }));
        self.fnmap.insert(i, id);
        id
    }
    pub fn global(&mut self, id: AllocId) -> AId {
        if let Some(&a) = self.gmap.get(&id) {
            return a;
        }
        let ga = GlobalAlloc::from(id);
        match &ga {
            GlobalAlloc::Function(i) => {
                let a = self.fn_alloc(*i);
                self.gmap.insert(id, a);
                a
            }
            GlobalAlloc::VTable(..) => {
                let v = ga.vtable_allocation().unwrap();
                let a = self.global(v);
                self.gmap.insert(id, a);
                a
            }
            GlobalAlloc::Static(d) => {
                let a = self.next;
                self.next += 1;
                self.gmap.insert(id, a);
                match d.eval_initializer() {
                    Ok(al) => {
                        let mutable = al.mutability == Mutability::Mut;
                        let name = d.name();
                        let mut v = self.alloc_bytes(&al);
                        if mutable {
                            for (i, b) in v.iter_mut().enumerate() {
                                if !matches!(b, Byte::P(..)) {
                                    let k = self.d.new_base(&format!("static {name}[{i}]"), 0, crate::dom::STATIC);
                                    let bits = self.d.base_bits(k);
                                    *b = Byte::from_bits(bits);
                                }
                            }
                        }
                        let al2 = Rc::new(Alloc { bytes: v, align: al.align, kind: if mutable { Kind::Static } else { Kind::Const }, len: None, hot: false });
                        self.aligns.borrow_mut().insert(a, al.align);
                        if mutable {
                            self.statics.insert(a, (name, al2));
                        } else {
                            self.globals.insert(a, al2);
                        }
                    }
                    Err(_) => {}
                }
                a
            }
            GlobalAlloc::Memory(al) => {
                let a = self.next;
                self.next += 1;
                self.gmap.insert(id, a);
                let v = self.alloc_bytes(al);
                self.aligns.borrow_mut().insert(a, al.align);
                self.globals.insert(a, Rc::new(Alloc { bytes: v, align: al.align, kind: Kind::Const, len: None, hot: false }));
                a
            }
            GlobalAlloc::TypeId { .. } => {
                let a = self.next;
                self.next += 1;
                self.gmap.insert(id, a);
                self.globals.insert(a, Rc::new(Alloc { bytes: vec![], align: 1, kind: Kind::Const, len: None, hot: false }));
                a
            }
        }
    }
    pub fn alloc_bytes(&mut self, al: &Allocation) -> Vec<Byte> {
        let mut v: Vec<Byte> = al.bytes.iter().map(|b| b.map(Byte::C).unwrap_or(Byte::U)).collect();
        for (off, prov) in &al.provenance.ptrs {
            let off = *off as usize;
            let mut add = 0u64;
            for i in 0..self.pb {
                let k = if self.big { off + self.pb - 1 - i } else { off + i };
                if let Some(b) = al.bytes[k] {
                    add |= (b as u64) << (8 * i);
                }
            }
            let a = self.global(prov.0);
            let p = Rc::new(Ptr { alloc: a, off: Off::C(add) });
            for i in 0..self.pb {
                v[off + i] = Byte::P(p.clone(), i as u8);
            }
        }
        v
    }

    // ---- instances ------------------------------------------------------------------------
    pub fn info(&mut self, inst: Instance) -> Rc<InstInfo> {
        if let Some(i) = self.insts.get(&inst) {
            return i.clone();
        }
        let krate = inst.def.krate().name;
        let name = inst.name();
        let local = krate == self.local_crate;
        let intrinsic = inst.intrinsic_name();
        let rust_call = match inst.ty().kind().fn_sig() {
            Some(s) => s.skip_binder().abi == Abi::RustCall,
            None => true,
        };
        let never = match inst.ty().kind().fn_sig() {
            Some(s) => matches!(s.skip_binder().output().kind(), TyKind::RigidTy(RigidTy::Never)),
            None => false,
        };
        let link = if inst.is_foreign_item() || inst.kind == InstanceKind::LlvmIntrinsic { inst.mangled_name() } else { String::new() };
        let body = if inst.kind == InstanceKind::LlvmIntrinsic || matches!(inst.kind, InstanceKind::Virtual { .. }) || inst.is_foreign_item() {
            None
        } else if inst.kind == InstanceKind::Intrinsic && !inst.has_body() {
            None
        } else {
            inst.body()
        };
        let body = body.map(|b| {
            let id = self.site_bodies.len();
            let r = Rc::new(self.prep(b, id));
            self.site_bodies.push(r.clone());
            self.site_names.push(name.clone());
            self.site_local.push(local);
            r
        });
        let r = Rc::new(InstInfo {
            pub_name: name.clone(),
            never,
            name,
            root: krate == "roots",
            krate,
            kind: inst.kind,
            local,
            body,
            rust_call,
            intrinsic,
            link,
            inst,
        });
        self.insts.insert(inst, r.clone());
        r
    }

    fn prep(&mut self, body: Body, id: usize) -> BodyInfo {
        let n = body.blocks.len();
        let mut locals = vec![];
        for l in body.locals() {
            match self.lay(l.ty) {
                Ok(x) => locals.push((x.size, x.align, l.ty)),
                Err(_) => locals.push((0, 1, l.ty)),
            }
        }
        // successors without unwinding
        let mut succ: Vec<Vec<usize>> = vec![];
        let mut rets = vec![];
        for (i, b) in body.blocks.iter().enumerate() {
            use TerminatorKind::*;
            let s = match &b.terminator.kind {
                Goto { target } => vec![*target],
                SwitchInt { targets, .. } => targets.all_targets(),
                Drop { target, .. } | Assert { target, .. } => vec![*target],
                Call { target, .. } => target.iter().copied().collect(),
                InlineAsm { destination, .. } => destination.iter().copied().collect(),
                Return => {
                    rets.push(i);
                    vec![]
                }
                _ => vec![],
            };
            succ.push(s);
        }
        // blocks that reach a return
        let mut pred: Vec<Vec<usize>> = vec![vec![]; n];
        for i in 0..n {
            for &s in &succ[i] {
                pred[s].push(i);
            }
        }
        let mut reach = vec![false; n];
        let mut st = rets.clone();
        while let Some(x) = st.pop() {
            if reach[x] {
                continue;
            }
            reach[x] = true;
            st.extend(&pred[x]);
        }
        // post-dominators on the sub-graph of returning blocks; node n is the exit
        let words = (n + 1 + 63) / 64;
        let full: Vec<u64> = vec![!0; words];
        let mut pd: Vec<Vec<u64>> = vec![full.clone(); n + 1];
        let set = |v: &mut Vec<u64>, i: usize| v[i / 64] |= 1 << (i % 64);
        let get = |v: &Vec<u64>, i: usize| v[i / 64] >> (i % 64) & 1 != 0;
        pd[n] = vec![0; words];
        set(&mut pd[n], n);
        let mut changed = true;
        while changed {
            changed = false;
            for i in (0..n).rev() {
                if !reach[i] {
                    continue;
                }
                let mut ss: Vec<usize> = succ[i].iter().copied().filter(|s| reach[*s]).collect();
                if rets.contains(&i) {
                    ss.push(n);
                }
                let mut m = full.clone();
                for s in ss {
                    for w in 0..words {
                        m[w] &= pd[s][w];
                    }
                }
                set(&mut m, i);
                if m != pd[i] {
                    pd[i] = m;
                    changed = true;
                }
            }
        }
        let mut ipdom = vec![None; n];
        for i in 0..n {
            if !reach[i] {
                continue;
            }
            // immediate: the post-dominator (other than i) that is post-dominated by all the others
            let c: Vec<usize> = (0..n).filter(|j| *j != i && get(&pd[i], *j)).collect();
            let cnt = |j: usize| pd[j].iter().map(|w| w.count_ones()).sum::<u32>();
            ipdom[i] = c.into_iter().max_by_key(|j| cnt(*j));
        }
        // liveness: a local is kept at a block if some block reachable from it mentions the local,
        // or its address was taken
        let nl = locals.len();
        let mut uses = vec![vec![false; nl]; n];
        let mut addr = vec![false; nl];
        for (i, b) in body.blocks.iter().enumerate() {
            let mut v = Uses { set: &mut uses[i], addr: &mut addr };
            v.visit_basic_block(b);
        }
        let mut live = vec![vec![false; nl]; n];
        for i in 0..n {
            let mut seen = vec![false; n];
            let mut st = vec![i];
            while let Some(x) = st.pop() {
                if seen[x] {
                    continue;
                }
                seen[x] = true;
                for l in 0..nl {
                    live[i][l] |= uses[x][l];
                }
                st.extend(&succ[x]);
            }
            live[i][0] = true;
            for l in 0..nl {
                live[i][l] |= addr[l];
            }
        }
        // loop heads: targets of back edges in a depth-first walk
        let mut loop_head = vec![false; n];
        let mut color = vec![0u8; n];
        let mut st: Vec<(usize, usize)> = vec![(0, 0)];
        color[0] = 1;
        while let Some((x, k)) = st.pop() {
            if k < succ[x].len() {
                st.push((x, k + 1));
                let s = succ[x][k];
                if color[s] == 1 {
                    loop_head[s] = true;
                } else if color[s] == 0 {
                    color[s] = 1;
                    st.push((s, 0));
                }
            } else {
                color[x] = 2;
            }
        }
        let mut v = Sizes { body: &body, wide: vec![], other: vec![], narrow: false };
        for b in &body.blocks {
            v.visit_basic_block(b);
        }
        let mut sizes = v.wide;
        if v.narrow {
            sizes.extend(v.other);
        }
        BodyInfo { body, ipdom, live, locals, loop_head, sizes, id }
    }
}

struct Uses<'a> {
    set: &'a mut Vec<bool>,
    addr: &'a mut Vec<bool>,
}
/// Integer constants of pointer width (operands, array lengths, const generics), and what a cast from
/// pointer width to a narrower type wraps at; the constants of other types matter where there is such a cast.
struct Sizes<'a> {
    body: &'a Body,
    wide: Vec<u64>,
    other: Vec<u64>,
    narrow: bool,
}
fn int_bits(t: Ty) -> Option<(u32, bool)> {
    match t.kind() {
        TyKind::RigidTy(RigidTy::Uint(u)) => Some(match u {
            UintTy::Usize => (64, true),
            UintTy::U8 => (8, false),
            UintTy::U16 => (16, false),
            UintTy::U32 => (32, false),
            UintTy::U64 => (64, false),
            UintTy::U128 => (128, false),
        }),
        TyKind::RigidTy(RigidTy::Int(u)) => Some(match u {
            IntTy::Isize => (64, true),
            IntTy::I8 => (8, false),
            IntTy::I16 => (16, false),
            IntTy::I32 => (32, false),
            IntTy::I64 => (64, false),
            IntTy::I128 => (128, false),
        }),
        _ => None,
    }
}
impl<'a> Sizes<'a> {
    fn generics(&mut self, t: Ty) {
        if let TyKind::RigidTy(RigidTy::FnDef(_, a) | RigidTy::Adt(_, a)) = t.kind() {
            for g in &a.0 {
                if let GenericArgKind::Const(c) = g {
                    if let Ok(n) = c.eval_target_usize() {
                        self.wide.push(n);
                    }
                }
            }
        }
    }
}
impl<'a> MirVisitor for Sizes<'a> {
    fn visit_const_operand(&mut self, c: &ConstOperand, _l: visit::Location) {
        let t = c.const_.ty();
        self.generics(t);
        if let Some((_, wide)) = int_bits(t) {
            if let ConstantKind::Allocated(a) = c.const_.kind() {
                if let Ok(v) = a.read_uint() {
                    if v <= 1 << 40 {
                        if wide { self.wide.push(v as u64) } else { self.other.push(v as u64) }
                    }
                }
            }
        }
    }
    fn visit_terminator(&mut self, t: &Terminator, l: visit::Location) {
        if let TerminatorKind::SwitchInt { discr, targets } = &t.kind {
            if let Some((_, wide)) = discr.ty(self.body.locals()).ok().and_then(int_bits) {
                for (v, _) in targets.branches() {
                    if v <= 1 << 40 {
                        if wide { self.wide.push(v as u64) } else { self.other.push(v as u64) }
                    }
                }
            }
        }
        self.super_terminator(t, l)
    }
    fn visit_rvalue(&mut self, r: &Rvalue, l: visit::Location) {
        if let Rvalue::Cast(_, o, to) = r {
            if let (Some((_, true)), Some((n, false))) = (o.ty(self.body.locals()).ok().and_then(int_bits), int_bits(*to)) {
                self.narrow = true;
                if n < 32 {
                    self.wide.push(1 << n);
                    self.wide.push(1 << (n - 1));
                }
            }
        }
        self.super_rvalue(r, l)
    }
}

impl<'a> MirVisitor for Uses<'a> {
    fn visit_local(&mut self, local: &Local, _c: visit::PlaceContext, _l: visit::Location) {
        self.set[*local] = true;
    }
    fn visit_statement(&mut self, s: &Statement, l: visit::Location) {
        match &s.kind {
            StatementKind::StorageLive(_) | StatementKind::StorageDead(_) => {}
            _ => self.super_statement(s, l),
        }
    }
    fn visit_rvalue(&mut self, r: &Rvalue, l: visit::Location) {
        match r {
            Rvalue::Ref(_, _, p) | Rvalue::AddressOf(_, p) | Rvalue::Reborrow(_, _, p) => {
                if !p.projection.iter().any(|e| matches!(e, ProjectionElem::Deref)) {
                    self.addr[p.local] = true;
                }
            }
            _ => {}
        }
        self.super_rvalue(r, l)
    }
}

pub trait NumBytesT {
    fn num_bytes_t(&self, pb: usize) -> usize;
}
impl NumBytesT for IntTy {
    fn num_bytes_t(&self, pb: usize) -> usize {
        match self {
            IntTy::Isize => pb,
            IntTy::I8 => 1,
            IntTy::I16 => 2,
            IntTy::I32 => 4,
            IntTy::I64 => 8,
            IntTy::I128 => 16,
        }
    }
}
impl NumBytesT for UintTy {
    fn num_bytes_t(&self, pb: usize) -> usize {
        match self {
            UintTy::Usize => pb,
            UintTy::U8 => 1,
            UintTy::U16 => 2,
            UintTy::U32 => 4,
            UintTy::U64 => 8,
            UintTy::U128 => 16,
        }
    }
}
