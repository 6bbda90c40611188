//! The abstract value domain: bits are canonical boolean functions over
//!  * base atoms (input bytes and summarised argument bytes),
//!  * S / IS atoms (the AES S-box or its inverse applied to a byte of any form),
//!  * uninterpreted functions of canonical operands where no exact form is kept.

use crate::bdd::{Bdd, B, F, NOVAR, T};
use crate::fx::FxHashMap;

pub type Col = [u64; 4];
pub type F8 = [B; 8];

pub const SECRET: u8 = 1;
pub const PUBLIC: u8 = 2;
pub const STATIC: u8 = 4;
pub const HAVOC: u8 = 8;

#[derive(Clone, Debug)]
pub enum VarKind {
    Base { base: u32, bit: u8 },
    Atom { atom: u32, bit: u8 },
    Fun { id: u32 },
    Op { id: u32 },
    Free { name: String },
}

pub struct Base {
    pub name: String,
    pub start: u32,
    pub def: Option<F8>,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum AK {
    S,
    IS,
}

pub struct Atom {
    pub kind: AK,
    pub f: F8,
    pub start: u32,
    pub site: u64,
}

pub struct Dom {
    pub b: Bdd,
    pub vars: Vec<VarKind>,
    pub bases: Vec<Base>,
    pub atoms: Vec<Atom>,
    atom_ix: FxHashMap<(u8, F8), u32>,
    funs: Vec<(Col, F8)>,
    fun_ix: FxHashMap<(Col, F8), u32>,
    ops: Vec<(u8, B, B)>,
    op_ix: FxHashMap<(u8, B, B), u32>,
    ops_vars: Vec<u32>,
    fun_vars: Vec<u32>,
    /// pool of summarised argument bytes per scope level
    pool: Vec<Vec<u32>>,
    bases_of: FxHashMap<(u8, u8), Basis>,
    apply_memo: FxHashMap<(F8, Col), B>,
    comb_memo: FxHashMap<(u8, u8, Col), (Col, u32)>,
    /// a function over summary atoms as a sum of functions of one atom each and a remainder
    split_memo: FxHashMap<(u8, B), std::rc::Rc<(Vec<(u32, Col)>, B)>>,
    pub sbox: [u8; 256],
    pub inv: [u8; 256],
    pub site: u64,
    pub n_op: usize,
    pub op_budget: usize,
    pub deadline: Option<std::time::Instant>,
    pub mem_limit: u64,
    pub late: bool,
    /// word -> a constant, and the condition for being equal to it
    pub tests: FxHashMap<Vec<B>, (u128, B)>,
    ticks: u32,
    pub n_overflow: usize,
}

#[derive(Clone)]
struct Basis {
    // rows: reduced vectors, with the combination of generators that makes each
    rows: Vec<(Col, u32, usize)>,
    dom: Col,
}

pub fn gf_mul(a: u8, b: u8) -> u8 {
    let (mut a, mut b, mut r) = (a as u16, b, 0u16);
    while b != 0 {
        if b & 1 != 0 {
            r ^= a;
        }
        a <<= 1;
        if a & 0x100 != 0 {
            a ^= 0x11b;
        }
        b >>= 1;
    }
    r as u8
}

/// The S-box from its definition: inverse in GF(2^8), then the affine map.
pub fn make_sbox() -> [u8; 256] {
    let mut t = [0u8; 256];
    for x in 0..256usize {
        let mut inv = 0u8;
        if x != 0 {
            for y in 1..=255u8 {
                if gf_mul(x as u8, y) == 1 {
                    inv = y;
                }
            }
        }
        let mut s = 0x63u8;
        for r in 0..5 {
            s ^= inv.rotate_left(r);
        }
        t[x] = s;
    }
    t
}

pub fn col_of(f: impl Fn(u8) -> bool) -> Col {
    let mut c = [0u64; 4];
    for v in 0..256usize {
        if f(v as u8) {
            c[v >> 6] |= 1 << (v & 63);
        }
    }
    c
}
#[inline]
pub fn col_get(c: &Col, v: u8) -> bool {
    (c[(v >> 6) as usize] >> (v & 63)) & 1 != 0
}
fn col_xor(a: &Col, b: &Col) -> Col {
    [a[0] ^ b[0], a[1] ^ b[1], a[2] ^ b[2], a[3] ^ b[3]]
}
fn col_and(a: &Col, b: &Col) -> Col {
    [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]]
}

impl Dom {
    pub fn new() -> Self {
        let sbox = make_sbox();
        let mut inv = [0u8; 256];
        for x in 0..256 {
            inv[sbox[x] as usize] = x as u8;
        }
        Dom {
            b: Bdd::new(),
            vars: vec![VarKind::Free { name: String::new() }],
            bases: vec![],
            atoms: vec![],
            atom_ix: Default::default(),
            funs: vec![],
            fun_ix: Default::default(),
            ops: vec![],
            op_ix: Default::default(),
            ops_vars: vec![],
            fun_vars: vec![],
            pool: vec![],
            bases_of: Default::default(),
            apply_memo: Default::default(),
            comb_memo: Default::default(),
            split_memo: Default::default(),
            sbox,
            inv,
            site: 0,
            n_op: 0,
            op_budget: 400_000,
            deadline: None,
            mem_limit: 0,
            late: false,
            tests: Default::default(),
            ticks: 0,
            n_overflow: 0,
        }
    }

    // ---- variables -----------------------------------------------------
    pub fn new_base(&mut self, name: &str, level: u8, cls: u8) -> u32 {
        let id = self.bases.len() as u32;
        let start = self.vars.len() as u32;
        for bit in 0..8 {
            self.b.new_var(level, cls);
            self.vars.push(VarKind::Base { base: id, bit });
        }
        self.bases.push(Base { name: name.to_string(), start, def: None });
        id
    }
    pub fn base_bits(&mut self, base: u32) -> F8 {
        let s = self.bases[base as usize].start;
        let mut r = [F; 8];
        for j in 0..8 {
            r[j] = self.b.var(s + j as u32);
        }
        r
    }
    pub fn new_free(&mut self, name: &str, cls: u8) -> B {
        let v = self.b.new_var(0, cls);
        self.vars.push(VarKind::Free { name: name.to_string() });
        self.b.var(v)
    }

    // ---- boolean operations with graceful degradation ---------------------
    fn guard(&mut self, op: u8, a: B, b: B, r: B, before: usize) -> B {
        self.n_op += 1;
        if self.b.nodes.len() > before + 50_000 {
            self.watch();
        }
        if self.b.overflow {
            self.b.overflow = false;
            self.n_overflow += 1;
            self.watch();
            self.op_var(op, a, b)
        } else {
            r
        }
    }
    /// Time and memory: once either has run out every operation is cheap, and the interpreter stops.
    fn watch(&mut self) {
        if self.late {
            return;
        }
        if self.deadline.map(|d| std::time::Instant::now() > d).unwrap_or(false) {
            self.late = true;
        } else if self.mem_limit > 0 {
            let pages = std::fs::read_to_string("/proc/self/statm").ok().and_then(|s| s.split(' ').nth(1).and_then(|x| x.parse::<u64>().ok())).unwrap_or(0);
            self.late = pages * 4096 > self.mem_limit;
        }
    }
    fn op_var(&mut self, op: u8, a: B, b: B) -> B {
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        if let Some(&id) = self.op_ix.get(&(op, a, b)) {
            let v = self.ops_var(id);
            return self.b.var(v);
        }
        let id = self.ops.len() as u32;
        self.ops.push((op, a, b));
        self.op_ix.insert((op, a, b), id);
        let lvl = self.b.level(a).max(self.b.level(b));
        let cls = self.b.class(a) | self.b.class(b);
        let v = self.b.new_var(lvl, cls);
        self.vars.push(VarKind::Op { id });
        self.ops_vars.push(v);
        self.b.var(v)
    }
    /// New nodes one operation may make: less once the whole root has used many, so that memory
    /// stays bounded.
    #[inline]
    fn arm(&mut self, n: usize, k: usize) {
        let m = k * self.budget(n);
        self.b.limit = n + m;
        self.b.work_limit = self.b.work + 16 * m;
    }
    #[inline]
    fn budget(&self, n: usize) -> usize {
        if n > 40_000_000 || self.late {
            1_000
        } else if n > 16_000_000 {
            self.op_budget.min(20_000)
        } else {
            self.op_budget
        }
    }
    #[inline]
    pub fn and(&mut self, a: B, b: B) -> B {
        if a == F || b == F || a == (b ^ 1) {
            return F;
        }
        if a == T || a == b {
            return b;
        }
        if b == T {
            return a;
        }
        let n = self.b.nodes.len();
        self.arm(n, 1);
        let r = self.b.and(a, b);
        self.guard(0, a, b, r, n)
    }
    #[inline]
    pub fn or(&mut self, a: B, b: B) -> B {
        self.and(a ^ 1, b ^ 1) ^ 1
    }
    #[inline]
    pub fn xor(&mut self, a: B, b: B) -> B {
        let c = (a ^ b) & 1;
        let (a, b) = (a & !1, b & !1);
        if a == b {
            return F ^ c;
        }
        if a == T {
            return b ^ 1 ^ c;
        }
        if b == T {
            return a ^ 1 ^ c;
        }
        let n = self.b.nodes.len();
        self.arm(n, 1);
        let r = self.b.xor(a, b);
        self.guard(1, a, b, r, n) ^ c
    }
    /// Exclusive or of many terms.
    pub fn xor_many(&mut self, terms: &[B]) -> B {
        let mut rest = vec![];
        self.b.limit = usize::MAX;
        self.b.work_limit = usize::MAX;
        let mut acc = self.b.xor_affine(terms, &mut rest);
        for t in rest {
            acc = self.xor(acc, t);
        }
        acc
    }
    #[inline]
    pub fn not(&self, a: B) -> B {
        a ^ 1
    }
    pub fn ite(&mut self, c: B, a: B, b: B) -> B {
        if c == T || a == b {
            return a;
        }
        if c == F {
            return b;
        }
        let x = self.xor(a, b);
        let y = self.and(c, x);
        self.xor(b, y)
    }
    pub fn restrict(&mut self, f: B, c: B) -> B {
        if f == T || f == F || c == T || c == F {
            return f;
        }
        let n = self.b.nodes.len();
        self.arm(n, 1);
        let r = self.b.restrict(f, c);
        if self.b.overflow {
            self.b.overflow = false;
            return f;
        }
        r
    }

    // ---- univariate functions --------------------------------------------
    /// The single base atom that all of the given bits depend on, if any.
    pub fn univariate(&self, f: &[B]) -> Option<u32> {
        let mut base = None;
        let mut sup = vec![];
        for &x in f {
            if x == T || x == F {
                continue;
            }
            // quick reject on the top variable
            match self.vars[self.b.top(x) as usize] {
                VarKind::Base { base: k, .. } => {
                    if base.is_some() && base != Some(k) {
                        return None;
                    }
                    base = Some(k);
                }
                _ => return None,
            }
        }
        let k = base?;
        for &x in f {
            sup.clear();
            self.b.support(x, &mut sup);
            for &v in &sup {
                match self.vars[v as usize] {
                    VarKind::Base { base: q, .. } if q == k => {}
                    _ => return None,
                }
            }
        }
        Some(k)
    }
    /// Truth table of f over the bits of one base atom (f must depend on nothing else).
    pub fn truth(&self, f: B, base: u32) -> Col {
        let start = self.bases[base as usize].start;
        self.truth_(f, start)
    }
    fn truth_(&self, f: B, start: u32) -> Col {
        let v = self.b.top(f);
        if v == NOVAR {
            return if f == T { [!0; 4] } else { [0; 4] };
        }
        let j = v - start;
        let m = VARCOL[j as usize];
        let h = self.truth_(self.b.hi(f), start);
        let l = self.truth_(self.b.lo(f), start);
        let mut r = [0u64; 4];
        for i in 0..4 {
            r[i] = (m[i] & h[i]) | (!m[i] & l[i]);
        }
        r
    }
    pub fn from_truth(&mut self, c: &Col, base: u32) -> B {
        let start = self.bases[base as usize].start;
        self.from_truth_(c, start, 8, 0)
    }
    fn from_truth_(&mut self, c: &Col, start: u32, bit: u32, prefix: u32) -> B {
        if bit == 0 {
            return if col_get(c, prefix as u8) { T } else { F };
        }
        let bit = bit - 1;
        let l = self.from_truth_(c, start, bit, prefix);
        let h = self.from_truth_(c, start, bit, prefix | (1 << bit));
        self.b.mk(start + bit, h, l)
    }

    // ---- S-box atoms ---------------------------------------------------------
    pub fn sub(&mut self, kind: AK, f: &F8) -> F8 {
        if f.iter().all(|x| *x == T || *x == F) {
            let v = const_byte(f).unwrap();
            let r = if kind == AK::S { self.sbox[v as usize] } else { self.inv[v as usize] };
            return byte_bits(r);
        }
        let t = if kind == AK::S { self.sbox } else { self.inv };
        if let Some(base) = self.univariate(f) {
            let tts: Vec<Col> = f.iter().map(|x| self.truth(*x, base)).collect();
            let mut out = [F; 8];
            let mut idx = [0u8; 256];
            for v in 0..256 {
                let mut i = 0u8;
                for j in 0..8 {
                    i |= (col_get(&tts[j], v as u8) as u8) << j;
                }
                idx[v] = i;
            }
            for j in 0..8 {
                let c = col_of(|v| (t[idx[v as usize] as usize] >> j) & 1 != 0);
                out[j] = self.from_truth(&c, base);
            }
            return out;
        }
        // S(IS(x)) = x and IS(S(x)) = x
        if let Some((vs, c)) = self.b.affine(f[0]) {
            if vs.len() == 1 && !c {
                if let VarKind::Atom { atom, bit: 0 } = self.vars[vs[0] as usize] {
                    let a = &self.atoms[atom as usize];
                    let (k, start, g) = (a.kind, a.start, a.f);
                    if k != kind && (0..8).all(|j| f[j] == self.b.var(start + j as u32)) {
                        return g;
                    }
                }
            }
        }
        let key = (kind as u8, *f);
        let id = match self.atom_ix.get(&key) {
            Some(&i) => i,
            None => {
                let i = self.atoms.len() as u32;
                let start = self.vars.len() as u32;
                let lvl = f.iter().map(|x| self.b.level(*x)).max().unwrap();
                let cls = f.iter().map(|x| self.b.class(*x)).fold(0, |a, b| a | b);
                for bit in 0..8 {
                    self.b.new_var(lvl, cls);
                    self.vars.push(VarKind::Atom { atom: i, bit });
                }
                let site = self.site;
                self.atoms.push(Atom { kind, f: *f, start, site });
                self.atom_ix.insert(key, i);
                i
            }
        };
        let s = self.atoms[id as usize].start;
        let mut out = [F; 8];
        for j in 0..8 {
            out[j] = self.b.var(s + j as u32);
        }
        out
    }

    /// One output column of a 256-entry table applied to a byte of any form.
    pub fn apply(&mut self, f: &F8, col: &Col) -> B {
        if *col == [0; 4] {
            return F;
        }
        if *col == [!0u64; 4] {
            return T;
        }
        if let Some(v) = const_byte(f) {
            return if col_get(col, v) { T } else { F };
        }
        if let Some(&r) = self.apply_memo.get(&(*f, *col)) {
            return r;
        }
        let r = if let Some(base) = self.univariate(f) {
            let tts: Vec<Col> = f.iter().map(|x| self.truth(*x, base)).collect();
            let c = col_of(|v| {
                let mut i = 0u8;
                for j in 0..8 {
                    i |= (col_get(&tts[j], v) as u8) << j;
                }
                col_get(col, i)
            });
            self.from_truth(&c, base)
        } else {
            self.decompose(f, col)
        };
        self.apply_memo.insert((*f, *col), r);
        r
    }

    fn basis(&mut self, cm: u8, cv: u8) -> Basis {
        if let Some(b) = self.bases_of.get(&(cm, cv)) {
            return b.clone();
        }
        let dom = col_of(|v| v & cm == cv);
        let mut gens: Vec<Col> = vec![[!0; 4]];
        for j in 0..8 {
            gens.push(col_of(|v| (v >> j) & 1 != 0));
        }
        for j in 0..8 {
            gens.push(col_of(|v| (self.sbox[v as usize] >> j) & 1 != 0));
        }
        for j in 0..8 {
            gens.push(col_of(|v| (self.inv[v as usize] >> j) & 1 != 0));
        }
        let mut rows: Vec<(Col, u32, usize)> = vec![];
        for (i, g) in gens.iter().enumerate() {
            let mut v = col_and(g, &dom);
            let mut comb = 1u32 << i;
            for (r, c, p) in &rows {
                if col_get(&v, *p as u8) {
                    v = col_xor(&v, r);
                    comb ^= c;
                }
            }
            if let Some(p) = (0..256).find(|p| col_get(&v, *p as u8)) {
                for (r, c, _) in rows.iter_mut() {
                    if col_get(r, p as u8) {
                        *r = col_xor(r, &v);
                        *c ^= comb;
                    }
                }
                rows.push((v, comb, p));
            }
        }
        let b = Basis { rows, dom };
        self.bases_of.insert((cm, cv), b.clone());
        b
    }

    /// The column as a combination of the generators, on the bytes whose fixed bits (cm) are cv, and
    /// what remains.
    fn combination(&mut self, cm: u8, cv: u8, col: &Col) -> (Col, u32) {
        if let Some(r) = self.comb_memo.get(&(cm, cv, *col)) {
            return *r;
        }
        let mut best = ([0; 4], 0);
        for pass in 0..2 {
            if pass == 1 && cm == 0 {
                break;
            }
            let basis = if pass == 0 { self.basis(0, 0) } else { self.basis(cm, cv) };
            let mut v = col_and(col, &basis.dom);
            let mut comb = 0u32;
            for (r, c, p) in &basis.rows {
                if col_get(&v, *p as u8) {
                    v = col_xor(&v, r);
                    comb ^= c;
                }
            }
            best = (v, comb);
            if v == [0; 4] {
                break;
            }
        }
        self.comb_memo.insert((cm, cv, *col), best);
        best
    }

    /// g(f) for a complex byte f: linear in f, S(f), IS(f) where possible.
    fn decompose(&mut self, f: &F8, col: &Col) -> B {
        let (mut cm, mut cv) = (0u8, 0u8);
        for j in 0..8 {
            if f[j] == T || f[j] == F {
                cm |= 1 << j;
                if f[j] == T {
                    cv |= 1 << j;
                }
            }
        }
        let (rem, comb) = self.combination(cm, cv, col);
        let mut ts = vec![if comb & 1 != 0 { T } else { F }];
        for j in 0..8 {
            if comb >> (1 + j) & 1 != 0 {
                ts.push(f[j]);
            }
        }
        if (comb >> 9) & 0xff != 0 {
            let s = self.sub(AK::S, f);
            for j in 0..8 {
                if comb >> (9 + j) & 1 != 0 {
                    ts.push(s[j]);
                }
            }
        }
        if (comb >> 17) & 0xff != 0 {
            let s = self.sub(AK::IS, f);
            for j in 0..8 {
                if comb >> (17 + j) & 1 != 0 {
                    ts.push(s[j]);
                }
            }
        }
        if rem != [0; 4] {
            let x = self.fun_var(&rem, f);
            ts.push(x);
        }
        self.xor_many(&ts)
    }
    fn fun_var(&mut self, col: &Col, f: &F8) -> B {
        if let Some(&id) = self.fun_ix.get(&(*col, *f)) {
            let v = self.fun_vars[id as usize];
            return self.b.var(v);
        }
        let id = self.funs.len() as u32;
        self.funs.push((*col, *f));
        self.fun_ix.insert((*col, *f), id);
        let lvl = f.iter().map(|x| self.b.level(*x)).max().unwrap();
        let cls = f.iter().map(|x| self.b.class(*x)).fold(0, |a, b| a | b);
        let v = self.b.new_var(lvl, cls);
        self.vars.push(VarKind::Fun { id });
        self.fun_vars.push(v);
        self.b.var(v)
    }

    // ---- summaries ----------------------------------------------------------
    pub fn secret(&self, f: &F8) -> bool {
        f.iter().any(|x| self.b.class(*x) & SECRET != 0)
    }
    /// Is this byte something a summary should abstract (neither constant nor a function of one base atom)?
    pub fn complex(&self, f: &F8) -> bool {
        if f.iter().all(|x| *x == T || *x == F) {
            return false;
        }
        if f.iter().all(|x| self.b.class(*x) & SECRET == 0) {
            return false;
        }
        self.univariate(f).is_none()
    }
    /// A summary atom of the given level standing for the byte f.
    pub fn define(&mut self, level: u8, slot: usize, f: &F8) -> F8 {
        while self.pool.len() <= level as usize {
            self.pool.push(vec![]);
        }
        while self.pool[level as usize].len() <= slot {
            // in an order that keeps corresponding bytes of neighbouring 16-byte blocks together
            let n = self.pool[level as usize].len();
            let mut part = [0; 64];
            for j in 0..64 {
                let at = (j % 4) * 16 + j / 4;
                part[at] = self.new_base(&format!("arg{level}.{}", n + at), level, SECRET);
            }
            self.pool[level as usize].extend(part);
        }
        let base = self.pool[level as usize][slot];
        self.bases[base as usize].def = Some(*f);
        let bits = self.base_bits(base);
        let mut out = [F; 8];
        for j in 0..8 {
            out[j] = if f[j] == T || f[j] == F { f[j] } else { bits[j] };
        }
        out
    }

    /// Replace every summary atom of level >= `level` in f by its definition.
    pub fn expand(&mut self, level: u8, f: B, memo: &mut FxHashMap<B, B>) -> B {
        if self.b.level(f) < level || self.late {
            return f;
        }
        let c = f & 1;
        let f = f & !1;
        if let Some(&r) = memo.get(&f) {
            return r ^ c;
        }
        let r = self.expand_(level, f, memo);
        memo.insert(f, r);
        r ^ c
    }
    fn expand_(&mut self, level: u8, f: B, memo: &mut FxHashMap<B, B>) -> B {
        if let Some((vs, c)) = self.b.affine(f) {
            let mut ts = vec![if c { T } else { F }];
            for v in vs {
                ts.push(self.expand_var(level, v, memo));
            }
            return self.xor_many(&ts);
        }
        let parts = self.split(level, f);
        let mut acc = vec![];
        for (base, col) in &parts.0 {
            let d = self.bases[*base as usize].def.unwrap();
            let d = self.expand8(level, &d, memo);
            // d is already below this level; bits that are constant in d are not variables of f
            acc.push(self.apply(&d, col));
        }
        let f = parts.1;
        let rest = if self.b.level(f) < level {
            f
        } else if let Some((vs, c)) = self.b.affine(f) {
            let mut ts = vec![if c { T } else { F }];
            for v in vs {
                ts.push(self.expand_var(level, v, memo));
            }
            self.xor_many(&ts)
        } else {
            let mut cm = FxHashMap::default();
            self.compose(level, f, memo, &mut cm)
        };
        acc.push(rest);
        self.xor_many(&acc)
    }
    fn split(&mut self, level: u8, f: B) -> std::rc::Rc<(Vec<(u32, Col)>, B)> {
        if let Some(r) = self.split_memo.get(&(level, f)) {
            return r.clone();
        }
        let f_in = f;
        let mut sup = vec![];
        self.b.support(f, &mut sup);
        let mut defs: Vec<u32> = vec![];
        for &v in &sup {
            if self.b.var_level[v as usize] >= level {
                if let VarKind::Base { base, .. } = self.vars[v as usize] {
                    if !defs.contains(&base) {
                        defs.push(base);
                    }
                }
            }
        }
        let mut parts = vec![];
        let mut f = f;
        for base in defs {
            let s = self.bases[base as usize].start;
            let mut m = FxHashMap::default();
            let n = self.b.nodes.len();
            self.arm(n, 4);
            let f0 = self.b.cof0(f, s, s + 8, &mut m);
            let g = self.b.xor(f, f0);
            if self.b.overflow {
                self.b.overflow = false;
                continue;
            }
            sup.clear();
            self.b.support(g, &mut sup);
            if sup.iter().all(|v| *v >= s && *v < s + 8) {
                parts.push((base, self.truth(g, base)));
                f = f0;
            }
        }
        let r = std::rc::Rc::new((parts, f));
        self.split_memo.insert((level, f_in), r.clone());
        r
    }
    pub fn expand8(&mut self, level: u8, f: &F8, memo: &mut FxHashMap<B, B>) -> F8 {
        let mut o = [F; 8];
        for j in 0..8 {
            o[j] = self.expand(level, f[j], memo);
        }
        o
    }
    fn expand_var(&mut self, level: u8, v: u32, memo: &mut FxHashMap<B, B>) -> B {
        if self.b.var_level[v as usize] < level {
            return self.b.var(v);
        }
        let key = self.b.var(v);
        let (c, key) = (key & 1, key & !1);
        if let Some(&r) = memo.get(&key) {
            return r ^ c;
        }
        let r = match self.vars[v as usize].clone() {
            VarKind::Base { base, bit } => {
                let d = self.bases[base as usize].def.expect("definition");
                self.expand(level, d[bit as usize], memo)
            }
            VarKind::Atom { atom, bit } => {
                let (k, f, site) = {
                    let a = &self.atoms[atom as usize];
                    (a.kind, a.f, a.site)
                };
                let g = self.expand8(level, &f, memo);
                let old = std::mem::replace(&mut self.site, site);
                let s = self.sub(k, &g);
                self.site = old;
                s[bit as usize]
            }
            VarKind::Fun { id } => {
                let (c, f) = self.funs[id as usize];
                let g = self.expand8(level, &f, memo);
                self.apply(&g, &c)
            }
            VarKind::Op { id } => {
                let (op, a, b) = self.ops[id as usize];
                let a = self.expand(level, a, memo);
                let b = self.expand(level, b, memo);
                if op == 0 {
                    self.and(a, b)
                } else {
                    self.xor(a, b)
                }
            }
            VarKind::Free { .. } => unreachable!(),
        };
        // key is the regular edge of the variable node
        memo.insert(key, r ^ c);
        r
    }
    fn compose(&mut self, level: u8, f: B, memo: &mut FxHashMap<B, B>, cm: &mut FxHashMap<B, B>) -> B {
        if self.b.level(f) < level || self.late {
            return f; // once it is late the result is not used
        }
        self.ticks += 1;
        if self.ticks % 256 == 0 {
            self.watch();
        }
        let c = f & 1;
        let f = f & !1;
        if let Some(&r) = cm.get(&f) {
            return r ^ c;
        }
        let v = self.b.top(f);
        let (h, l) = (self.b.hi(f), self.b.lo(f));
        let h = self.compose(level, h, memo, cm);
        let l = self.compose(level, l, memo, cm);
        let m = self.expand_var(level, v, memo);
        let r = self.ite(m, h, l);
        cm.insert(f, r);
        r ^ c
    }
    fn ops_var(&self, id: u32) -> u32 {
        self.ops_vars[id as usize]
    }

    /// an input bit, as opposed to a function of older bits
    pub fn is_input(&self, v: u32) -> bool {
        match &self.vars[v as usize] {
            VarKind::Base { base, .. } => self.bases[*base as usize].def.is_none(),
            VarKind::Free { .. } => true,
            _ => false,
        }
    }
    /// f with the variable v replaced by its definition over older variables, exactly
    /// (raw diagram operations only; the caller bounds them).
    pub fn substitute(&mut self, f: B, v: u32) -> B {
        let g = match self.vars[v as usize].clone() {
            VarKind::Base { base, bit } => self.bases[base as usize].def.unwrap()[bit as usize],
            VarKind::Op { id } => {
                let (op, a, b) = self.ops[id as usize];
                if op == 0 {
                    self.b.and(a, b)
                } else {
                    self.b.xor(a, b)
                }
            }
            VarKind::Atom { atom, bit } => {
                let (k, x) = {
                    let a = &self.atoms[atom as usize];
                    (a.kind, a.f)
                };
                let t = if k == AK::S { self.sbox } else { self.inv };
                self.raw_table(&x, &col_of(|v| t[v as usize] >> bit & 1 != 0), 8, 0)
            }
            VarKind::Fun { id } => {
                let (c, x) = self.funs[id as usize];
                self.raw_table(&x, &c, 8, 0)
            }
            VarKind::Free { .. } => return f,
        };
        let mut memo = FxHashMap::default();
        self.subst_(f, v, g, &mut memo)
    }
    fn raw_table(&mut self, x: &F8, col: &Col, k: usize, prefix: u8) -> B {
        if k == 0 {
            return if col_get(col, prefix) { T } else { F };
        }
        let h = self.raw_table(x, col, k - 1, prefix | 1 << (k - 1));
        let l = self.raw_table(x, col, k - 1, prefix);
        if h == l || self.b.overflow {
            return l;
        }
        self.b.ite(x[k - 1], h, l)
    }
    fn subst_(&mut self, f: B, v: u32, g: B, memo: &mut FxHashMap<B, B>) -> B {
        if f == T || f == F || self.b.overflow || self.b.top(f) < v {
            return f;
        }
        if let Some(&r) = memo.get(&f) {
            return r;
        }
        let t = self.b.top(f);
        let (h, l) = (self.b.hi(f), self.b.lo(f));
        let r = if t == v {
            self.b.ite(g, h, l)
        } else {
            let h = self.subst_(h, v, g, memo);
            let l = self.subst_(l, v, g, memo);
            if self.b.overflow {
                return f;
            }
            let x = self.b.var(t);
            self.b.ite(x, h, l)
        };
        memo.insert(f, r);
        r
    }

    pub fn eval_var(&self, v: u32, e: &mut crate::oblige::Eval) -> bool {
        match &self.vars[v as usize] {
            VarKind::Base { base, bit } => match self.bases[*base as usize].def {
                Some(d) => e.bit(self, d[*bit as usize]),
                None => e.base_val(*base) >> bit & 1 != 0,
            },
            VarKind::Atom { atom, bit } => {
                let a = &self.atoms[*atom as usize];
                let t = if a.kind == AK::S { &self.sbox } else { &self.inv };
                e.atom(self, *atom, &a.f, t) >> bit & 1 != 0
            }
            VarKind::Fun { id } => {
                let (c, f) = &self.funs[*id as usize];
                let x = e.byte(self, f);
                col_get(c, x)
            }
            VarKind::Op { id } => {
                let (op, a, b) = self.ops[*id as usize];
                let (x, y) = (e.bit(self, a), e.bit(self, b));
                if op == 0 {
                    x && y
                } else {
                    x ^ y
                }
            }
            VarKind::Free { .. } => {
                let x = e.base_val(0x8000_0000 | v);
                x & 1 != 0
            }
        }
    }

    // ---- reporting -------------------------------------------------------------
    pub fn show(&self, f: B, depth: usize) -> String {
        if f == T {
            return "1".into();
        }
        if f == F {
            return "0".into();
        }
        if let Some((vs, c)) = self.b.affine(f) {
            let mut s: Vec<String> = vs.iter().take(8).map(|v| self.show_var(*v, depth)).collect();
            if vs.len() > 8 {
                s.push(format!("..{} terms", vs.len()));
            }
            if c {
                s.push("1".into());
            }
            return s.join("^");
        }
        let mut sup = vec![];
        self.b.support(f, &mut sup);
        sup.sort();
        let mut names: Vec<String> = vec![];
        for v in &sup {
            let n = match &self.vars[*v as usize] {
                VarKind::Base { base, .. } => self.bases[*base as usize].name.clone(),
                VarKind::Atom { atom, .. } => self.show_atom(*atom, depth),
                _ => self.show_var(*v, depth),
            };
            if !names.contains(&n) {
                names.push(n);
            }
        }
        let n = names.len();
        names.truncate(6);
        format!("f({}{})", names.join(","), if n > 6 { ",.." } else { "" })
    }
    fn show_var(&self, v: u32, depth: usize) -> String {
        match &self.vars[v as usize] {
            VarKind::Base { base, bit } => format!("{}.{}", self.bases[*base as usize].name, bit),
            VarKind::Atom { atom, bit } => format!("{}.{}", self.show_atom(*atom, depth), bit),
            VarKind::Fun { id } => format!("fn{id}"),
            VarKind::Op { id } => format!("op{id}"),
            VarKind::Free { name } => name.clone(),
        }
    }
    fn show_atom(&self, a: u32, depth: usize) -> String {
        let at = &self.atoms[a as usize];
        let n = if at.kind == AK::S { "S" } else { "IS" };
        if depth == 0 {
            return format!("{n}#{a}");
        }
        format!("{n}#{a}({}..)", self.show(at.f[0], depth - 1))
    }
    pub fn site_of(&self, f: B) -> Option<u64> {
        let mut sup = vec![];
        self.b.support(f, &mut sup);
        sup.sort();
        for v in sup.iter().rev() {
            if let VarKind::Atom { atom, .. } = &self.vars[*v as usize] {
                return Some(self.atoms[*atom as usize].site);
            }
        }
        None
    }
}

pub const VARCOL: [Col; 8] = {
    let mut r = [[0u64; 4]; 8];
    let mut j = 0;
    while j < 8 {
        let mut v = 0;
        while v < 256 {
            if (v >> j) & 1 != 0 {
                r[j][v >> 6] |= 1 << (v & 63);
            }
            v += 1;
        }
        j += 1;
    }
    r
};

pub fn const_byte(f: &[B]) -> Option<u8> {
    let mut v = 0u8;
    for (j, x) in f.iter().enumerate() {
        if *x == T {
            v |= 1 << j;
        } else if *x != F {
            return None;
        }
    }
    Some(v)
}
pub fn byte_bits(v: u8) -> F8 {
    let mut r = [F; 8];
    for j in 0..8 {
        if (v >> j) & 1 != 0 {
            r[j] = T;
        }
    }
    r
}
