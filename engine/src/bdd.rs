//! Canonical boolean functions (reduced ordered decision diagrams with complement edges).
//! Every abstract bit of the interpreter is one of these, so equality of two abstract bits is
//! equality of two u32s.

use crate::fx::FxHashMap;

pub type B = u32;
pub const T: B = 0;
pub const F: B = 1;
/// The terminal's "variable". Variables with larger numbers (newer ones) are nearer the root, so
/// that sums share their older part.
pub const NOVAR: u32 = 0;

#[derive(Clone, Copy)]
pub struct Node {
    pub var: u32,
    pub hi: B,
    pub lo: B,
}

pub struct Bdd {
    pub nodes: Vec<Node>,
    /// open-addressing unique table: node indices, 0 = free slot
    uniq: Vec<u32>,
    marks: Vec<bool>,
    cache: Vec<(u32, B, B, B)>,
    /// highest scope level of any variable below this node (filled from var_level)
    pub lvl: Vec<u8>,
    /// variable classes below this node (bit set)
    pub cls: Vec<u8>,
    pub var_level: Vec<u8>,
    pub var_cls: Vec<u8>,
    pub limit: usize,
    /// Steps taken that no table answered, and where an operation has to stop.
    pub work: usize,
    pub work_limit: usize,
    pub overflow: bool,
}

const CBITS: usize = 20;
const OP_AND: u32 = 1;
const OP_XOR: u32 = 2;

#[inline]
fn h(a: u32, b: u32, c: u32) -> usize {
    let x = (a as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15)
        ^ (b as u64).wrapping_mul(0xC2B2_AE3D_27D4_EB4F)
        ^ (c as u64).wrapping_mul(0x1656_67B1_9E37_79F9);
    ((x ^ (x >> 29)).wrapping_mul(0xBF58_476D_1CE4_E5B9) >> (64 - CBITS)) as usize
}

#[inline]
fn hu(a: u32, b: u32, c: u32) -> usize {
    let x = (a as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15)
        ^ (b as u64).wrapping_mul(0xC2B2_AE3D_27D4_EB4F)
        ^ (c as u64).wrapping_mul(0x1656_67B1_9E37_79F9);
    ((x ^ (x >> 29)).wrapping_mul(0xBF58_476D_1CE4_E5B9) >> 20) as usize
}

impl Bdd {
    pub fn new() -> Self {
        Bdd {
            nodes: vec![Node { var: NOVAR, hi: T, lo: T }],
            uniq: vec![0; 1 << 14],
            marks: vec![],
            cache: vec![(0, 0, 0, 0); 1 << CBITS],
            lvl: vec![0],
            cls: vec![0],
            var_level: vec![0],
            var_cls: vec![0],
            limit: usize::MAX,
            work: 0,
            work_limit: usize::MAX,
            overflow: false,
        }
    }
    pub fn new_var(&mut self, level: u8, cls: u8) -> u32 {
        self.var_level.push(level);
        self.var_cls.push(cls);
        (self.var_level.len() - 1) as u32
    }
    #[inline]
    pub fn top(&self, f: B) -> u32 {
        self.nodes[(f >> 1) as usize].var
    }
    #[inline]
    pub fn hi(&self, f: B) -> B {
        self.nodes[(f >> 1) as usize].hi ^ (f & 1)
    }
    #[inline]
    pub fn lo(&self, f: B) -> B {
        self.nodes[(f >> 1) as usize].lo ^ (f & 1)
    }
    #[inline]
    pub fn level(&self, f: B) -> u8 {
        self.lvl[(f >> 1) as usize]
    }
    #[inline]
    pub fn class(&self, f: B) -> u8 {
        self.cls[(f >> 1) as usize]
    }
    pub fn mk(&mut self, var: u32, hi: B, lo: B) -> B {
        if hi == lo {
            return hi;
        }
        let c = hi & 1;
        let (hi, lo) = (hi ^ c, lo ^ c);
        let mask = self.uniq.len() - 1;
        let mut slot = hu(var, hi, lo) & mask;
        loop {
            let i = self.uniq[slot];
            if i == 0 {
                break;
            }
            let n = &self.nodes[i as usize];
            if n.var == var && n.hi == hi && n.lo == lo {
                return (i << 1) | c;
            }
            slot = (slot + 1) & mask;
        }
        if self.nodes.len() > self.limit {
            self.overflow = true;
        }
        let i = self.nodes.len() as u32;
        self.nodes.push(Node { var, hi, lo });
        let l = self.var_level[var as usize]
            .max(self.lvl[(hi >> 1) as usize])
            .max(self.lvl[(lo >> 1) as usize]);
        self.lvl.push(l);
        let k = self.var_cls[var as usize] | self.cls[(hi >> 1) as usize] | self.cls[(lo >> 1) as usize];
        self.cls.push(k);
        self.uniq[slot] = i;
        if self.nodes.len() * 2 > self.uniq.len() {
            self.grow();
        }
        (i << 1) | c
    }
    fn grow(&mut self) {
        let n = self.uniq.len() * 2;
        let mut t = vec![0u32; n];
        for (i, nd) in self.nodes.iter().enumerate().skip(1) {
            let mut s = hu(nd.var, nd.hi, nd.lo) & (n - 1);
            while t[s] != 0 {
                s = (s + 1) & (n - 1);
            }
            t[s] = i as u32;
        }
        self.uniq = t;
    }
    /// Exclusive or of many terms; affine terms are summed as sets of variables, so that no
    /// intermediate sum is built.
    pub fn xor_affine(&mut self, terms: &[B], rest: &mut Vec<B>) -> B {
        self.marks.resize(self.var_level.len(), false);
        let mut touched: Vec<u32> = vec![];
        let mut cst = false;
        for &t in terms {
            let start = touched.len();
            let mut g = t;
            let mut ok = true;
            loop {
                let n = self.nodes[(g >> 1) as usize];
                if n.var == NOVAR {
                    break;
                }
                if n.hi != (n.lo ^ 1) {
                    ok = false;
                    break;
                }
                touched.push(n.var);
                g = n.lo ^ (g & 1);
            }
            if !ok {
                touched.truncate(start);
                rest.push(t);
                continue;
            }
            for i in start..touched.len() {
                let v = touched[i] as usize;
                self.marks[v] = !self.marks[v];
            }
            cst ^= g == T;
        }
        let mut vs: Vec<u32> = vec![];
        for &v in &touched {
            if self.marks[v as usize] {
                vs.push(v);
                self.marks[v as usize] = false;
            }
        }
        vs.sort_unstable();
        let mut acc = if cst { T } else { F };
        for &v in vs.iter() {
            acc = self.mk(v, acc ^ 1, acc);
        }
        acc
    }
    pub fn var(&mut self, v: u32) -> B {
        self.mk(v, T, F)
    }
    pub fn and(&mut self, a: B, b: B) -> B {
        if a == F || b == F || a == (b ^ 1) {
            return F;
        }
        if a == T || a == b {
            return b;
        }
        if b == T {
            return a;
        }
        if self.overflow {
            return F;
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        let ix = h(OP_AND, a, b);
        let e = self.cache[ix];
        if e.0 == OP_AND && e.1 == a && e.2 == b {
            return e.3;
        }
        self.work += 1;
        if self.work > self.work_limit {
            self.overflow = true;
            return F;
        }
        let (va, vb) = (self.top(a), self.top(b));
        let v = va.max(vb);
        let (ah, al) = if va == v { (self.hi(a), self.lo(a)) } else { (a, a) };
        let (bh, bl) = if vb == v { (self.hi(b), self.lo(b)) } else { (b, b) };
        let hi = self.and(ah, bh);
        let lo = self.and(al, bl);
        let r = self.mk(v, hi, lo);
        if !self.overflow {
            self.cache[ix] = (OP_AND, a, b, r);
        }
        r
    }
    pub fn or(&mut self, a: B, b: B) -> B {
        self.and(a ^ 1, b ^ 1) ^ 1
    }
    pub fn xor(&mut self, a: B, b: B) -> B {
        let c = (a ^ b) & 1;
        let (a, b) = (a & !1, b & !1);
        if a == b {
            return F ^ c;
        }
        // T == 0: xor with T is negation
        if a == T {
            return b ^ 1 ^ c;
        }
        if b == T {
            return a ^ 1 ^ c;
        }
        if self.overflow {
            return F;
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        let ix = h(OP_XOR, a, b);
        let e = self.cache[ix];
        if e.0 == OP_XOR && e.1 == a && e.2 == b {
            return e.3 ^ c;
        }
        self.work += 1;
        if self.work > self.work_limit {
            self.overflow = true;
            return F;
        }
        let (va, vb) = (self.top(a), self.top(b));
        let v = va.max(vb);
        let (ah, al) = if va == v { (self.hi(a), self.lo(a)) } else { (a, a) };
        let (bh, bl) = if vb == v { (self.hi(b), self.lo(b)) } else { (b, b) };
        let hi = self.xor(ah, bh);
        let lo = self.xor(al, bl);
        let r = self.mk(v, hi, lo);
        if !self.overflow {
            self.cache[ix] = (OP_XOR, a, b, r);
        }
        r ^ c
    }
    pub fn ite(&mut self, c: B, a: B, b: B) -> B {
        if c == T || a == b {
            return a;
        }
        if c == F {
            return b;
        }
        if a == (b ^ 1) {
            return self.xor(c, b);
        }
        // c&a | !c&b  (disjoint)
        let x = self.and(c, a);
        let y = self.and(c ^ 1, b);
        self.or(x, y)
    }
    /// Simplify f using care set c (Coudert-Madre restrict): equals f wherever c holds.
    pub fn restrict(&mut self, f: B, c: B) -> B {
        let mut memo = FxHashMap::default();
        self.restrict_(f, c, &mut memo)
    }
    fn restrict_(&mut self, f: B, c: B, memo: &mut FxHashMap<(B, B), B>) -> B {
        if c == T || f == T || f == F || c == F {
            return f;
        }
        if f == c {
            return T;
        }
        if f == (c ^ 1) {
            return F;
        }
        self.work += 1;
        if self.work > self.work_limit {
            self.overflow = true;
            return F;
        }
        if let Some(&r) = memo.get(&(f, c)) {
            return r;
        }
        let (vf, vc) = (self.top(f), self.top(c));
        let r = if vc > vf {
            let (ch, cl) = (self.hi(c), self.lo(c));
            let cc = self.or(ch, cl);
            self.restrict_(f, cc, memo)
        } else {
            let (fh, fl) = (self.hi(f), self.lo(f));
            let (ch, cl) = if vc == vf { (self.hi(c), self.lo(c)) } else { (c, c) };
            if ch == F {
                self.restrict_(fl, cl, memo)
            } else if cl == F {
                self.restrict_(fh, ch, memo)
            } else {
                let hh = self.restrict_(fh, ch, memo);
                let ll = self.restrict_(fl, cl, memo);
                self.mk(vf, hh, ll)
            }
        };
        memo.insert((f, c), r);
        r
    }
    /// Set of variables f depends on.
    pub fn support(&self, f: B, out: &mut Vec<u32>) {
        let mut seen = crate::fx::FxHashSet::default();
        let mut st = vec![f >> 1];
        let mut vars = crate::fx::FxHashSet::default();
        for v in out.iter() {
            vars.insert(*v);
        }
        while let Some(n) = st.pop() {
            if n == 0 || !seen.insert(n) {
                continue;
            }
            let nd = self.nodes[n as usize];
            if vars.insert(nd.var) {
                out.push(nd.var);
            }
            st.push(nd.hi >> 1);
            st.push(nd.lo >> 1);
        }
    }
    /// the newest variable of f that satisfies the predicate
    pub fn newest(&self, f: B, p: impl Fn(u32) -> bool) -> Option<u32> {
        let mut s = vec![];
        self.support(f, &mut s);
        s.into_iter().filter(|v| p(*v)).max()
    }
    pub fn size(&self, f: B) -> usize {
        let mut seen = crate::fx::FxHashSet::default();
        let mut st = vec![f >> 1];
        while let Some(n) = st.pop() {
            if n == 0 || !seen.insert(n) {
                continue;
            }
            let nd = self.nodes[n as usize];
            st.push(nd.hi >> 1);
            st.push(nd.lo >> 1);
        }
        seen.len()
    }
    /// Cofactor: set every variable in lo..hi (a contiguous range) to 0.
    pub fn cof0(&mut self, f: B, lo: u32, hi: u32, memo: &mut FxHashMap<u32, B>) -> B {
        let v = self.top(f);
        if v < lo {
            return f;
        }
        let n = f >> 1;
        if let Some(&r) = memo.get(&n) {
            return r ^ (f & 1);
        }
        let nd = self.nodes[n as usize];
        let r = if nd.var < hi {
            self.cof0(nd.lo, lo, hi, memo)
        } else {
            let a = self.cof0(nd.hi, lo, hi, memo);
            let b = self.cof0(nd.lo, lo, hi, memo);
            self.mk(nd.var, a, b)
        };
        memo.insert(n, r);
        r ^ (f & 1)
    }
    /// If f is an affine form, its variables and constant.
    pub fn affine(&self, f: B) -> Option<(Vec<u32>, bool)> {
        let mut out = vec![];
        let mut g = f;
        loop {
            let n = self.nodes[(g >> 1) as usize];
            if n.var == NOVAR {
                return Some((out, g == T));
            }
            if n.hi != (n.lo ^ 1) {
                return None;
            }
            out.push(n.var);
            g = n.lo ^ (g & 1);
        }
    }
    pub fn eval(&self, f: B, asg: &dyn Fn(u32) -> bool) -> bool {
        let mut g = f;
        loop {
            let n = self.nodes[(g >> 1) as usize];
            if n.var == NOVAR {
                return g == T;
            }
            g = if asg(n.var) { n.hi } else { n.lo } ^ (g & 1);
        }
    }
    /// A satisfying partial assignment.
    pub fn pick(&self, f: B) -> Vec<(u32, bool)> {
        let mut out = vec![];
        let mut g = f;
        if f == F {
            return out;
        }
        loop {
            let n = self.nodes[(g >> 1) as usize];
            if n.var == NOVAR {
                return out;
            }
            let hi = n.hi ^ (g & 1);
            let lo = n.lo ^ (g & 1);
            if lo != F {
                out.push((n.var, false));
                g = lo;
            } else {
                out.push((n.var, true));
                g = hi;
            }
        }
    }
}
