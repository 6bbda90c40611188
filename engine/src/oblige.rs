//! What each entry point of the roots crate must compute, and the comparison with what it does compute.
use crate::bdd::{B, F, T};
use crate::dom::{byte_bits, col_of, Dom, VarKind, F8, PUBLIC, SECRET};
use crate::fx::FxHashMap;
use crate::interp::*;
use crate::mem::*;
use crate::spec::{self, Blk};
use crate::word::{wconst, W};
use rustc_public::mir::mono::Instance;
use rustc_public::ty::*;
use std::rc::Rc;

#[derive(Default)]
pub struct Outcome {
    pub root: String,
    /// functional mismatches, each with a witness where one was found
    pub bad: Vec<(String, String, Vec<String>)>,
    /// the analysis gave up somewhere
    pub undecided: Vec<(String, Vec<String>)>,
    pub events: Vec<(EK, String, Vec<String>, bool)>,
    pub obligations: u64,
    pub ms: u128,
    pub info: String,
}

pub struct Arg {
    pub name: String,
    pub bytes: Vec<F8>,
    pub alloc: AId,
    pub len: Option<Rc<W>>,
    pub ty: Ty,
}

fn arr_len(it: &mut Interp, t: Ty) -> Option<(usize, Ty)> {
    match &*it.kind(t) {
        TyKind::RigidTy(RigidTy::Array(e, c)) => Some((c.eval_target_usize().ok()? as usize, *e)),
        _ => None,
    }
}
fn flat_u8(it: &mut Interp, t: Ty) -> Option<usize> {
    if let TyKind::RigidTy(RigidTy::Uint(UintTy::U8)) = &*it.kind(t) {
        return Some(1);
    }
    let (n, e) = arr_len(it, t)?;
    Some(n * flat_u8(it, e)?)
}

/// evaluation of canonical forms at one assignment of the input bytes
pub struct Eval {
    pub seed: u64,
    memo: FxHashMap<u32, bool>,
    atoms: FxHashMap<u32, u8>,
    base: FxHashMap<u32, u8>,
    mode: u32,
}
impl Eval {
    pub fn new(seed: u64, mode: u32) -> Eval {
        Eval { seed, memo: Default::default(), atoms: Default::default(), base: Default::default(), mode }
    }
    pub fn base_val(&mut self, b: u32) -> u8 {
        let (s, m) = (self.seed, self.mode);
        *self.base.entry(b).or_insert_with(|| {
            let mut x = s.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ (b as u64 + 1).wrapping_mul(0xD6E8_FEB8_6659_FD93);
            x ^= x >> 32;
            x = x.wrapping_mul(0xD6E8_FEB8_6659_FD93);
            x ^= x >> 32;
            let r = (x >> 8) as u8;
            match m {
                0 => 0,
                1 => 0xff,
                2 => {
                    if x >> 60 == 0 {
                        1 << (r & 7)
                    } else {
                        0
                    }
                }
                3 => {
                    if x >> 60 == 0 {
                        r
                    } else {
                        0
                    }
                }
                4 => {
                    if x >> 60 == 0 {
                        r
                    } else {
                        0xff
                    }
                }
                5 => (b & 0xff) as u8,
                _ => r,
            }
        })
    }
    /// fix one input bit
    pub fn preset(&mut self, d: &Dom, v: u32, x: bool) {
        let (k, bit) = match &d.vars[v as usize] {
            VarKind::Base { base, bit } if d.bases[*base as usize].def.is_none() => (*base, *bit),
            VarKind::Free { .. } => (0x8000_0000 | v, 0),
            _ => return,
        };
        let o = self.base_val(k);
        self.base.insert(k, o & !(1 << bit) | (x as u8) << bit);
    }
    pub fn bit(&mut self, d: &Dom, f: B) -> bool {
        if f == T {
            return true;
        }
        if f == F {
            return false;
        }
        let c = f & 1 != 0;
        let k = f & !1;
        if let Some(v) = self.memo.get(&k) {
            return *v ^ c;
        }
        let v = d.b.top(k);
        let x = self.var(d, v);
        let r = if x { self.bit(d, d.b.hi(k)) } else { self.bit(d, d.b.lo(k)) };
        self.memo.insert(k, r);
        r ^ c
    }
    fn var(&mut self, d: &Dom, v: u32) -> bool {
        d.eval_var(v, self)
    }
    pub fn byte(&mut self, d: &Dom, f: &F8) -> u8 {
        (0..8).fold(0, |a, j| a | (self.bit(d, f[j]) as u8) << j)
    }
    pub fn atom(&mut self, d: &Dom, a: u32, f: &F8, table: &[u8; 256]) -> u8 {
        if let Some(v) = self.atoms.get(&a) {
            return *v;
        }
        let x = self.byte(d, f);
        let r = table[x as usize];
        self.atoms.insert(a, r);
        r
    }
}

pub enum Found {
    Unsat,
    Sat(Eval),
    Unknown,
}
fn mode(n: u64) -> u32 {
    if n < 2 {
        n as u32
    } else {
        2 + (n % 5) as u32
    }
}

fn hex(v: &[u8]) -> String {
    v.iter().map(|b| format!("{b:02x}")).collect()
}

pub struct Ck<'a> {
    pub it: &'a mut Interp,
    pub args: &'a [Arg],
    pub out: &'a mut Outcome,
}

impl<'a> Ck<'a> {
    fn blk(&self, a: usize, lane: usize) -> Blk {
        let mut b = [[F; 8]; 16];
        b.copy_from_slice(&self.args[a].bytes[16 * lane..16 * lane + 16]);
        b
    }
    fn nlanes(&self, a: usize) -> usize {
        self.args[a].bytes.len() / 16
    }
    /// cond -> got == want, byte by byte
    fn same(&mut self, what: &str, cond: B, got: &[Byte], want: &[F8]) {
        if cond == F {
            return;
        }
        if got.len() != want.len() {
            self.out.bad.push((format!("{what}: {} bytes instead of {}", got.len(), want.len()), String::new(), vec![]));
            return;
        }
        self.out.obligations += want.len() as u64 * 8;
        for (i, (g, w)) in got.iter().zip(want).enumerate() {
            let bits = match g {
                Byte::C(c) => byte_bits(*c),
                Byte::S(s) => {
                    if s.init != T {
                        let u = self.it.d.and(cond, s.init ^ 1);
                        if u != F {
                            self.out.bad.push((format!("{what}: byte {i} may be uninitialised"), String::new(), vec![]));
                            return;
                        }
                    }
                    s.bits
                }
                _ => {
                    self.out.bad.push((format!("{what}: byte {i} is not a value"), String::new(), vec![]));
                    return;
                }
            };
            if bits == *w {
                continue;
            }
            let wit = match self.differ(cond, &bits, w) {
                // equal after all
                Found::Unsat => continue,
                Found::Sat(mut e) => {
                    let (g, w) = (e.byte(&self.it.d, &bits), e.byte(&self.it.d, w));
                    format!("got {g:02x} instead of {w:02x} for {}", self.assignment(&mut e))
                }
                Found::Unknown => String::new(),
            };
            let j = (0..8).find(|j| bits[*j] != w[*j]).unwrap_or(0);
            let d = &self.it.d;
            let text = format!("{what}: byte {i} bit {j} is {} instead of {}", d.show(bits[j], 1), d.show(w[j], 1));
            let site = d.site_of(bits[j]).map(|s| vec![self.it.site_str(s)]).unwrap_or_default();
            if wit.is_empty() {
                // the canonical forms differ, but it is not known whether related atoms hide it
                self.out.undecided.push((text, site));
            } else {
                self.out.bad.push((text, wit, site));
            }
            return;
        }
    }
    /// Is there an input with cond and got != want?
    fn differ(&mut self, cond: B, got: &F8, want: &F8) -> Found {
        let mut unknown = false;
        for k in 0..8 {
            if got[k] == want[k] {
                continue;
            }
            let x = match self.raw(1, got[k], want[k]) {
                Some(x) => self.raw(0, x, cond),
                None => None,
            };
            match x.map(|x| self.find(x)) {
                Some(Found::Unsat) => {}
                Some(Found::Sat(e)) => return Found::Sat(e),
                _ => unknown = true,
            }
        }
        if !unknown {
            return Found::Unsat;
        }
        for n in 0..4000u64 {
            let mut e = Eval::new(n, mode(n));
            if e.bit(&self.it.d, cond) && e.byte(&self.it.d, got) != e.byte(&self.it.d, want) {
                return Found::Sat(e);
            }
        }
        Found::Unknown
    }
    /// xor (1) or and (0) in the canonical domain itself, without opaque operations
    fn raw(&mut self, op: u8, a: B, b: B) -> Option<B> {
        let bd = &mut self.it.d.b;
        bd.limit = bd.nodes.len() + 1_000_000;
        let r = if op == 0 { bd.and(a, b) } else { bd.xor(a, b) };
        let o = std::mem::replace(&mut bd.overflow, false);
        (!o).then_some(r)
    }
    /// Is the canonical form c, over input bytes and atoms, satisfiable once the atoms are related
    /// to their arguments?
    pub fn find(&mut self, c: B) -> Found {
        if c == F {
            return Found::Unsat;
        }
        for n in 0..200u64 {
            let mut e = Eval::new(n, mode(n));
            if e.bit(&self.it.d, c) {
                return Found::Sat(e);
            }
        }
        // a path of the diagram fixes the input bytes it depends on
        let mut rng = 0x1234_5678_9abc_def1u64;
        for n in 0..2000u64 {
            let mut e = Eval::new(n, 6);
            let (path, pure) = self.path(c, &mut rng, n > 0);
            for (v, x) in path {
                e.preset(&self.it.d, v, x);
            }
            if e.bit(&self.it.d, c) {
                return Found::Sat(e);
            }
            if pure {
                break;
            }
        }
        match self.eliminate(c) {
            Some(F) => Found::Unsat,
            Some(g) => {
                let mut rng = 1;
                let (path, _) = self.path(g, &mut rng, false);
                let mut e = Eval::new(0, 0);
                for (v, x) in path {
                    e.preset(&self.it.d, v, x);
                }
                if e.bit(&self.it.d, c) {
                    Found::Sat(e)
                } else {
                    Found::Unknown
                }
            }
            None => Found::Unknown,
        }
    }
    /// one satisfying path; pure: it mentions inputs only
    fn path(&self, f: B, rng: &mut u64, random: bool) -> (Vec<(u32, bool)>, bool) {
        let d = &self.it.d;
        let mut out = vec![];
        let mut pure = true;
        let mut g = f;
        while g != T && g != F {
            let v = d.b.top(g);
            if !d.is_input(v) {
                pure = false;
            }
            let (hi, lo) = (d.b.hi(g), d.b.lo(g));
            *rng ^= *rng << 13;
            *rng ^= *rng >> 7;
            *rng ^= *rng << 17;
            let want_hi = random && *rng & 1 != 0;
            let take_hi = lo == F || (want_hi && hi != F);
            out.push((v, take_hi));
            g = if take_hi { hi } else { lo };
        }
        (out, pure)
    }
    /// Substitute the definitions of all atoms, newest first; None when the result grows too large.
    fn eliminate(&mut self, c: B) -> Option<B> {
        let mut f = c;
        let limit = self.it.d.b.nodes.len() + 3_000_000;
        loop {
            let v = self.it.d.b.newest(f, |v| !self.it.d.is_input(v));
            let Some(v) = v else { return Some(f) };
            let old = std::mem::replace(&mut self.it.d.b.limit, limit);
            let r = self.it.d.substitute(f, v);
            self.it.d.b.limit = old;
            if std::mem::replace(&mut self.it.d.b.overflow, false) {
                return None;
            }
            f = r;
        }
    }
    fn assignment(&self, e: &mut Eval) -> String {
        let mut s = vec![];
        for a in self.args {
            if let Some(l) = &a.len {
                let mut v = 0u64;
                for (i, b) in l.iter().enumerate() {
                    if e.bit(&self.it.d, *b) && i < 64 {
                        v |= 1 << i;
                    }
                }
                s.push(format!("len({})={v}", a.name));
            }
            let b: Vec<u8> = a.bytes.iter().take(64).map(|f| e.byte(&self.it.d, f)).collect();
            s.push(format!("{}={}{}", a.name, hex(&b), if a.bytes.len() > 64 { ".." } else { "" }));
        }
        s.join(" ")
    }
    /// cond must be impossible
    fn never(&mut self, what: &str, cond: B) {
        self.out.obligations += 1;
        if cond == F {
            return;
        }
        match self.find(cond) {
            Found::Unsat => {}
            Found::Sat(mut e) => {
                let w = self.assignment(&mut e);
                self.out.bad.push((what.to_string(), w, vec![]));
            }
            Found::Unknown => {
                let t = format!("{what}: possible when {}", self.it.d.show(cond, 1));
                self.out.undecided.push((t, vec![]));
            }
        }
    }
    fn total(&mut self, outs: &[(State, Vec<Byte>)]) -> B {
        let mut c = F;
        for (s, _) in outs {
            c = self.it.d.or(c, s.pc);
        }
        c
    }
    fn concat(&self, b: &[Blk]) -> Vec<F8> {
        b.iter().flatten().copied().collect()
    }

    fn simple(&mut self, outs: &[(State, Vec<Byte>)], want: &[F8]) {
        let t = self.total(outs);
        self.never("no result is returned", t ^ 1);
        for (s, v) in outs {
            self.same("result", s.pc, v, want);
        }
    }
    fn outparams(&mut self, outs: &[(State, Vec<Byte>)], want: &[(usize, Vec<F8>)]) {
        let t = self.total(outs);
        self.never("the call does not return", t ^ 1);
        for (s, _) in outs {
            for (a, w) in want {
                let al = match self.it.alloc_of(s, self.args[*a].alloc) {
                    Some(x) => x.bytes.clone(),
                    None => vec![],
                };
                let nm = format!("output {}", self.args[*a].name);
                self.same(&nm, s.pc, &al, w);
            }
        }
    }

    pub fn check(&mut self, name: &str, outs: &[(State, Vec<Byte>)], panics: &[Ev]) -> bool {
        let p: Vec<&str> = name.split('_').collect();
        match p.as_slice() {
            ["enc", k, l] | ["conv", "e", k, l, ..] | ["convq", "e", k, l, ..] | ["pure", "e", k, l, ..] => {
                let _ = (k, l);
                let pi = self.args.len() - 1;
                let key = self.args[0].bytes.clone();
                let rk = spec::expand_key(&mut self.it.d, &key);
                let mut w = vec![];
                for lane in 0..self.nlanes(pi) {
                    let b = self.blk(pi, lane);
                    w.push(spec::cipher(&mut self.it.d, &rk, &b));
                }
                let w = self.concat(&w);
                self.simple(outs, &w);
            }
            ["dec", k, l] | ["conv", "d", k, l, ..] | ["convq", "d", k, l, ..] | ["pure", "d", k, l, ..] => {
                let _ = (k, l);
                let pi = self.args.len() - 1;
                let key = self.args[0].bytes.clone();
                let rk = spec::expand_key(&mut self.it.d, &key);
                let mut w = vec![];
                for lane in 0..self.nlanes(pi) {
                    let b = self.blk(pi, lane);
                    w.push(spec::inv_cipher(&mut self.it.d, &rk, &b));
                }
                let w = self.concat(&w);
                self.simple(outs, &w);
            }
            ["rt", ..] | ["tr", ..] => {
                let w = self.args[1].bytes.clone();
                self.simple(outs, &w);
            }
            ["state", ..] => {
                // four objects with the same bytes
                let t = self.total(outs);
                self.never("no result is returned", t ^ 1);
                for (s, v) in outs {
                    let last: Option<Vec<F8>> = v[v.len() / 4 * 3..].iter().map(|b| match b {
                        Byte::C(c) => Some(byte_bits(*c)),
                        Byte::S(s) if s.init == T => Some(s.bits),
                        _ => None,
                    }).collect();
                    let Some(last) = last else {
                        self.out.bad.push(("the object has bytes without a value".into(), String::new(), vec![]));
                        continue;
                    };
                    for (i, c) in v.chunks(v.len() / 4).take(3).enumerate() {
                        self.same(&format!("state {i}"), s.pc, c, &last);
                    }
                }
            }
            ["bytes", ..] | ["pure", "copy", ..] => {
                let w = self.args[0].bytes.clone();
                self.simple(outs, &w);
            }
            ["mix", op] => {
                let b = self.blk(0, 0);
                let d = &mut self.it.d;
                let w = match *op {
                    "mc" => spec::mix(d, &b),
                    "imc" => spec::imix(d, &b),
                    _ => b,
                };
                let w = self.concat(&[w]);
                self.simple(outs, &w);
            }
            ["round", op, _] => {
                let mut w = vec![];
                for l in 0..self.nlanes(0) {
                    let (a, k) = (self.blk(0, l), self.blk(1, l));
                    let d = &mut self.it.d;
                    w.push(match *op {
                        "enc" => spec::enc(d, &a, &k),
                        "dec" => spec::dec(d, &a, &k),
                        "encl" => spec::enc_last(d, &a, &k),
                        "decl" => spec::dec_last(d, &a, &k),
                        _ => return false,
                    });
                }
                let w = self.concat(&w);
                self.simple(outs, &w);
            }
            ["chain", op, _, n] => {
                let n: usize = n.parse().unwrap();
                if n == 0 {
                    let t = self.total(outs);
                    self.never("a chain call with no keys returns a value instead of panicking", t);
                    let mut c = F;
                    for e in panics {
                        c = self.it.d.or(c, e.cond);
                    }
                    self.never("a chain call with no keys does not panic", c ^ 1);
                    return true;
                }
                let lanes = self.nlanes(0);
                let mut w = vec![];
                for l in 0..lanes {
                    let mut acc = self.blk(0, l);
                    for i in 0..n {
                        let k = self.blk(1, i * lanes + l);
                        let d = &mut self.it.d;
                        acc = if i == 0 {
                            spec::xor16(d, &acc, &k)
                        } else if *op == "enc" {
                            spec::enc(d, &acc, &k)
                        } else {
                            spec::dec(d, &acc, &k)
                        };
                    }
                    w.push(acc);
                }
                let w = self.concat(&w);
                self.simple(outs, &w);
            }
            ["op", op, l] => {
                if *op == "zero" || *op == "default" {
                    let l: usize = l.parse().unwrap();
                    self.simple(outs, &vec![[F; 8]; 16 * l]);
                    return true;
                }
                let n = self.args[0].bytes.len();
                let mut w = vec![];
                for i in 0..n {
                    let mut f = [F; 8];
                    for j in 0..8 {
                        let a = self.args[0].bytes[i][j];
                        let b = if self.args.len() > 1 { self.args[1].bytes[i][j] } else { F };
                        let d = &mut self.it.d;
                        f[j] = match *op {
                            "and" | "anda" => d.and(a, b),
                            "or" | "ora" => d.or(a, b),
                            "xor" | "xora" => d.xor(a, b),
                            "not" => a ^ 1,
                            _ => return false,
                        };
                    }
                    w.push(f);
                }
                self.simple(outs, &w);
            }
            ["eq", op, _] => {
                let n = self.args[0].bytes.len();
                let mut e = T;
                for i in 0..n {
                    for j in 0..8 {
                        let a = self.args[0].bytes[i][j];
                        let b = if *op == "zero" { F } else { self.args[1].bytes[i][j] };
                        let x = self.it.d.xor(a, b) ^ 1;
                        e = self.it.d.and(e, x);
                    }
                }
                if *op == "ne" {
                    e ^= 1;
                }
                let mut f = [F; 8];
                f[0] = e;
                self.simple(outs, &[f]);
            }
            ["u128", op] => {
                let w = self.args[0].bytes.clone();
                let mut o: Vec<(State, Vec<Byte>)> = outs.to_vec();
                if *op != "from" && !self.it.big {
                    for (_, v) in o.iter_mut() {
                        v.reverse();
                    }
                }
                self.simple(&o, &w);
            }
            ["pack", ..] => {
                let w: Vec<F8> = self.args.iter().flat_map(|a| a.bytes.iter().copied()).collect();
                self.simple(outs, &w);
            }
            ["bcast", n, rest @ ..] => {
                let n: usize = n.parse().unwrap();
                let n = if rest.is_empty() { n } else { n / 2 };
                let mut w = vec![];
                for _ in 0..n {
                    w.extend_from_slice(&self.args[0].bytes);
                }
                self.simple(outs, &w);
            }
            ["split", ..] => {
                let v = self.args[0].bytes.clone();
                let k = self.args.len() - 1;
                let n = v.len() / k;
                let want: Vec<(usize, Vec<F8>)> = (0..k).map(|i| (i + 1, v[i * n..(i + 1) * n].to_vec())).collect();
                self.outparams(outs, &want);
            }
            ["slice", "try", l] => {
                let n = 16 * l.parse::<usize>().unwrap();
                let nb = self.it.pb * 8;
                let len = self.args[0].len.clone().unwrap();
                let short = self.it.d.wult(&len, &wconst(n as u128, nb));
                let t = self.total(outs);
                self.never("the conversion does not return", t ^ 1);
                let lenb: Vec<F8> = len
                    .chunks(8)
                    .map(|c| {
                        let mut f = [F; 8];
                        f.copy_from_slice(c);
                        f
                    })
                    .collect();
                for (s, v) in outs {
                    let mut s = s.clone();
                    let r = match self.it.word(&mut s, v) {
                        Ok(w) => w[0],
                        Err(_) => return false,
                    };
                    let x = self.it.d.and(s.pc, r);
                    let bad = self.it.d.and(x, short);
                    self.never("a slice that is too short is accepted", bad);
                    let y = self.it.d.and(s.pc, r ^ 1);
                    let bad = self.it.d.and(y, short ^ 1);
                    self.never("a slice that is long enough is rejected", bad);
                    let o = self.it.alloc_of(&s, self.args[1].alloc).map(|a| a.bytes.clone()).unwrap_or_default();
                    let w = self.args[0].bytes[..n].to_vec();
                    self.same("converted bytes", x, &o, &w);
                    let mut e = self.it.alloc_of(&s, self.args[2].alloc).map(|a| a.bytes.clone()).unwrap_or_default();
                    if self.it.big {
                        e.reverse();
                    }
                    self.same("error value", y, &e, &lenb);
                }
            }
            // a key object from a slice: accepted only at the key's length
            ["keyslice", n, ..] => {
                let n = n.parse::<u128>().unwrap();
                let nb = self.it.pb * 8;
                let len = self.args[0].len.clone().unwrap();
                let exact = self.it.d.weq(&len, &wconst(n, nb));
                self.total(outs);
                for (s, v) in outs {
                    let mut s = s.clone();
                    let r = match self.it.word(&mut s, v) {
                        Ok(w) => w[0],
                        Err(_) => return false,
                    };
                    let x = self.it.d.and(s.pc, r);
                    let bad = self.it.d.and(x, exact ^ 1);
                    self.never("a key of the wrong length is accepted", bad);
                }
            }
            ["slice", "store", l] => {
                let n = 16 * l.parse::<usize>().unwrap();
                let nb = self.it.pb * 8;
                let len = self.args[1].len.clone().unwrap();
                let short = self.it.d.wult(&len, &wconst(n as u128, nb));
                let t = self.total(outs);
                let x = self.it.d.and(t, short);
                self.never("a destination that is too short does not panic", x);
                let nt = self.it.d.and(t ^ 1, short ^ 1);
                self.never("a destination that is long enough panics", nt);
                for (s, _) in outs {
                    let o = self.it.alloc_of(s, self.args[1].alloc).map(|a| a.bytes.clone()).unwrap_or_default();
                    let mut w = self.args[0].bytes.clone();
                    w.extend_from_slice(&self.args[1].bytes[n..]);
                    let c = self.it.d.and(s.pc, short ^ 1);
                    self.same("destination", c, &o, &w);
                }
                for e in panics {
                    if let Some(s) = &e.st {
                        let o = self.it.alloc_of(s, self.args[1].alloc).map(|a| a.bytes.clone()).unwrap_or_default();
                        let w = self.args[1].bytes.clone();
                        let c = self.it.d.and(e.cond, short);
                        self.same("destination when it panics", c, &o, &w);
                    }
                }
            }
            ["fmt", what, l] | ["fmt", what, l, _] => return self.fmt(what, l, outs),
            ["fmterr", ..] => {
                let t = self.total(outs);
                self.never("formatting does not return", t ^ 1);
                for (s, v) in outs {
                    self.same("result of formatting into an output that refuses a write", s.pc, v, &[byte_bits(1)]);
                }
            }
            ["keyfmt", ..] => {
                let t = self.total(outs);
                self.never("formatting a key object does not return", t ^ 1);
            }
            _ => return false,
        }
        true
    }

    fn digits(&mut self, f: &F8, style: &str) -> Vec<F8> {
        let mut out = vec![];
        let parts: Vec<Box<dyn Fn(u8) -> u8>> = match style {
            "b" => (0..8).rev().map(|k| Box::new(move |v: u8| b'0' + (v >> k & 1)) as Box<dyn Fn(u8) -> u8>).collect(),
            _ => {
                let up = style == "X";
                [4u8, 0]
                    .into_iter()
                    .map(|k| Box::new(move |v: u8| if up { b"0123456789ABCDEF" } else { b"0123456789abcdef" }[(v >> k & 15) as usize]) as Box<dyn Fn(u8) -> u8>)
                    .collect()
            }
        };
        for p in parts {
            let mut o = [F; 8];
            for j in 0..8 {
                o[j] = self.it.d.apply(f, &col_of(|v| p(v) >> j & 1 != 0));
            }
            out.push(o);
        }
        out
    }
    fn fmt(&mut self, what: &str, l: &str, outs: &[(State, Vec<Byte>)]) -> bool {
        let lanes: usize = l.parse().unwrap();
        let lit = |s: &str| -> Vec<F8> { s.bytes().map(byte_bits).collect() };
        let (style, prefix) = match what {
            "lower" | "disp" | "debug" => ("x", ""),
            "alower" => ("x", "0x"),
            "upper" | "adisp" | "adebug" => ("X", ""),
            "aupper" => ("X", "0X"),
            "bin" => ("b", ""),
            "abin" => ("b", "0b"),
            _ => return false,
        };
        let mut w: Vec<F8> = vec![];
        let pretty = what == "adebug" && lanes > 1;
        for lane in 0..lanes {
            if lanes > 1 {
                if pretty {
                    w.extend(lit(if lane == 0 { "(\n    " } else { ",\n    " }));
                } else {
                    w.extend(lit(if lane == 0 { "(" } else { ", " }));
                }
            }
            w.extend(lit(prefix));
            for f in self.blk(0, lane) {
                let g = self.digits(&f, style);
                w.extend(g);
            }
        }
        if lanes > 1 {
            w.extend(lit(if pretty { ",\n)" } else { ")" }));
        }
        let t = self.total(outs);
        self.never("formatting does not return", t ^ 1);
        let bt = match self.it.pointee(self.args[1].ty) {
            Some(t) => t,
            None => return false,
        };
        let (bo, lo) = match self.it.lay(bt) {
            Ok(l) => match self.it.field_offsets(&l.shape, None) {
                Ok(o) => (o[0], o[1]),
                Err(_) => return false,
            },
            Err(_) => return false,
        };
        let pb = self.it.pb;
        for (s, v) in outs {
            self.same("fmt result", s.pc, v, &[byte_bits(1)]);
            let o = self.it.alloc_of(s, self.args[1].alloc).map(|a| a.bytes.clone()).unwrap_or_default();
            let mut lb = o[lo..lo + pb].to_vec();
            if self.it.big {
                lb.reverse();
            }
            let want: Vec<F8> = (0..pb).map(|i| byte_bits((w.len() as u64 >> (8 * i)) as u8)).collect();
            self.same("length of the text", s.pc, &lb, &want);
            self.same("text", s.pc, &o[bo..bo + w.len()], &w);
        }
        true
    }
}

impl Interp {
    pub fn site_str(&self, s: u64) -> String {
        let (b, bb, si) = ((s >> 32) as usize, ((s >> 12) & 0xfffff) as usize, (s & 0xfff) as usize);
        let Some(body) = self.site_bodies.get(b) else { return String::new() };
        let blk = &body.body.blocks[bb];
        let sp = if si < blk.statements.len() { blk.statements[si].source_info.span } else { blk.terminator.source_info.span };
        format!("{} ({})", self.site_names[b], Interp::span_str(&sp))
    }
}

pub fn build_args(it: &mut Interp, st: &mut State, inst: Instance, names: &[String]) -> R<(Vec<Arg>, Vec<Vec<Byte>>, Vec<Ty>)> {
    let body = it.info(inst).body.clone().ok_or(Stop::Unsup("no body".into()))?;
    let n = body.body.arg_locals().len();
    let tys: Vec<Ty> = body.body.arg_locals().iter().map(|l| l.ty).collect();
    // 0: by value bytes, 1: u128, 2: reference to bytes, 3: slice, 4: &mut usize, 5: Buf
    let mut plan = vec![];
    for t in &tys {
        let k = it.kind(*t);
        let p = match &*k {
            TyKind::RigidTy(RigidTy::Uint(UintTy::U128)) => (1, 16, false),
            TyKind::RigidTy(RigidTy::Array(..)) => (0, flat_u8(it, *t).ok_or(Stop::Unsup("argument".into()))?, false),
            TyKind::RigidTy(RigidTy::Ref(_, u, m)) => {
                let mutable = *m == rustc_public::mir::Mutability::Mut;
                match &*it.kind(*u) {
                    TyKind::RigidTy(RigidTy::Slice(_)) => (3, 64 + 24, mutable),
                    TyKind::RigidTy(RigidTy::Array(..)) => (2, flat_u8(it, *u).ok_or(Stop::Unsup("argument".into()))?, mutable),
                    TyKind::RigidTy(RigidTy::Uint(UintTy::Usize)) => (4, it.pb, true),
                    TyKind::RigidTy(RigidTy::Adt(..)) => (5, it.size(*u)?, true),
                    _ => return unsup(format!("argument type {t}")),
                }
            }
            _ => return unsup(format!("argument type {t}")),
        };
        plan.push(p);
    }
    let mut bytes: Vec<Vec<F8>> = vec![vec![]; n];
    let maxn = plan.iter().filter(|p| p.0 != 5).map(|p| p.1).max().unwrap_or(0);
    // corresponding bytes of the arguments, and of the 16-byte lanes of one argument, lie together
    let lanes = |len: usize| if len == 32 || len == 64 { len / 16 } else { 1 };
    let mut order = vec![];
    for b in 0..maxn {
        for l in 0..4 {
            for i in 0..n {
                let (k, len, _) = plan[i];
                if k == 5 || l >= lanes(len) || b >= len / lanes(len) {
                    continue;
                }
                bytes[i].resize(len, [F; 8]);
                order.push((i, l * 16 + b));
            }
        }
    }
    for (i, b) in order {
        let m = plan[i].2;
        {
            let cls = if m { PUBLIC } else { SECRET };
            let id = it.d.new_base(&format!("{}[{b}]", names.get(i).cloned().unwrap_or_else(|| format!("arg{i}"))), 0, cls);
            bytes[i][b] = it.d.base_bits(id);
        }
    }
    // lengths last (nearest the root): they decide control flow
    let mut lens: Vec<Option<Rc<W>>> = vec![None; n];
    for i in 0..n {
        if plan[i].0 == 3 {
            let nb = it.pb * 8;
            let mut w: W = vec![];
            for j in 0..nb {
                let _ = j;
                w.push(F);
            }
            for j in 0..nb - 1 {
                w[j] = it.d.new_free(&format!("len.{j}"), PUBLIC);
            }
            lens[i] = Some(Rc::new(w));
        }
    }
    let mut args = vec![];
    let mut vals = vec![];
    for i in 0..n {
        let (k, len, m) = plan[i];
        let _ = m;
        let mut bs: Vec<Byte> = bytes[i].iter().map(|f| Byte::from_bits(*f)).collect();
        let mut alloc = 0;
        let v = match k {
            0 => bs,
            1 => {
                if !it.big {
                    bs.reverse();
                }
                bs
            }
            2 | 4 => {
                let al = if k == 4 { it.pb as u64 } else { 1 };
                alloc = it.new_alloc(st, bs, al, Kind::Input);
                it.mkptr(alloc, 0)
            }
            3 => {
                alloc = it.new_alloc(st, bs, 1, Kind::Input);
                Rc::make_mut(st.mem.get_mut(&alloc).unwrap()).len = lens[i].clone();
                let mut p = it.mkptr(alloc, 0);
                let l = it.norm((**lens[i].as_ref().unwrap()).clone());
                p.extend(it.bytes_of(&l, it.pb));
                p
            }
            _ => {
                alloc = it.new_alloc(st, vec![Byte::C(0); len], it.pb as u64, Kind::Input);
                it.mkptr(alloc, 0)
            }
        };
        if k == 2 || k == 3 || k == 5 {
            // immutable inputs are protected by their class only: writes through & are caught by comparing later
        }
        args.push(Arg { name: names.get(i).cloned().unwrap_or_else(|| format!("arg{i}")), bytes: bytes[i].clone(), alloc, len: lens[i].clone(), ty: tys[i] });
        vals.push(v);
    }
    Ok((args, vals, tys))
}

pub fn run_root(it: &mut Interp, inst: Instance, name: &str, names: &[String], panic_states: bool) -> Outcome {
    let t0 = std::time::Instant::now();
    let mut out = Outcome { root: name.to_string(), ..Default::default() };
    let mut st = State { mem: Default::default(), pc: T };
    it.events.clear();
    it.panic_states = panic_states;
    it.level = 0;
    let (args, vals, tys) = match build_args(it, &mut st, inst, names) {
        Ok(x) => x,
        Err(e) => {
            out.undecided.push((
                match e {
                    Stop::Unsup(s) => s,
                    Stop::Dead => "dead".into(),
                },
                vec![],
            ));
            return out;
        }
    };
    let before: Vec<(AId, Rc<Alloc>)> = st.mem.iter().map(|(k, v)| (*k, v.clone())).collect();
    let outs = it.call(st, inst, vals, tys.clone(), false);
    let events = std::mem::take(&mut it.events);
    let panics: Vec<Ev> = events.iter().filter(|e| e.kind == EK::Panic && e.cond != F).cloned().collect();
    // shared references must leave their referents unchanged
    for (s, _) in &outs {
        for (i, a) in args.iter().enumerate() {
            if a.alloc == 0 {
                continue;
            }
            let immut = match &*it.kind(tys[i]) {
                TyKind::RigidTy(RigidTy::Ref(_, _, m)) => *m == rustc_public::mir::Mutability::Not,
                _ => false,
            };
            if immut {
                if let (Some(x), Some((_, y))) = (s.mem.get(&a.alloc), before.iter().find(|b| b.0 == a.alloc)) {
                    if x.bytes.iter().zip(&y.bytes).any(|(p, q)| !p.same(q)) {
                        out.bad.push((format!("input {} borrowed immutably is modified", a.name), String::new(), vec![]));
                    }
                }
            }
        }
    }
    let mut ck = Ck { it, args: &args, out: &mut out };
    if !ck.check(name, &outs, &panics) {
        ck.out.undecided.push(("no obligation for this entry point".into(), vec![]));
    }
    for e in events {
        if e.cond == F {
            continue;
        }
        match e.kind {
            EK::Unsup => out.undecided.push((e.msg, e.stack.to_vec())),
            EK::SecretBranch | EK::SecretIndex | EK::SecretDiv => {
                let live = e.bits.iter().any(|b| *b != T && *b != F && it.d.b.class(*b) & SECRET != 0);
                if live {
                    out.events.push((e.kind, e.msg, e.stack.to_vec(), false));
                }
            }
            _ => out.events.push((e.kind, e.msg, e.stack.to_vec(), e.cond == T)),
        }
    }
    out.ms = t0.elapsed().as_millis();
    out.info = format!("nodes={} atoms={} overflow={} steps={}", it.d.b.nodes.len(), it.d.atoms.len(), it.d.n_overflow, it.steps);
    out
}
