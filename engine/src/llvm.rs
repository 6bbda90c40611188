//! Models of the processor instructions reached through LLVM intrinsics, from the vendors' manuals.
use crate::bdd::{F, T};
use crate::dom::{byte_bits, AK, F8};
use crate::interp::*;
use crate::mem::*;
use crate::spec::{self, Blk};
use rustc_public::ty::Ty;
use std::rc::Rc;

fn bytes(it: &mut Interp, st: &mut State, v: &[Byte]) -> R<Vec<F8>> {
    // memory order, byte by byte
    let mut o = vec![];
    for b in v {
        let w = it.word(st, std::slice::from_ref(b))?;
        let mut f = [F; 8];
        f.copy_from_slice(&w);
        o.push(f);
    }
    Ok(o)
}
fn blks(v: &[F8]) -> Vec<Blk> {
    v.chunks(16)
        .map(|c| {
            let mut b = [[F; 8]; 16];
            b.copy_from_slice(c);
            b
        })
        .collect()
}
fn out(v: &[Blk]) -> Vec<Byte> {
    v.iter().flatten().map(|f| Byte::from_bits(*f)).collect()
}
/// little-endian value bytes of an integer argument
fn ibytes(it: &mut Interp, st: &mut State, v: &[Byte]) -> R<Vec<F8>> {
    let w = it.word(st, v)?;
    Ok(w.chunks(8)
        .map(|c| {
            let mut f = [F; 8];
            f.copy_from_slice(c);
            f
        })
        .collect())
}
fn iout(it: &Interp, v: &[F8]) -> Vec<Byte> {
    let w: Vec<_> = v.iter().flatten().copied().collect();
    let s = it.norm(w);
    it.bytes_of(&s, v.len())
}
fn col(it: &mut Interp, v: &[F8], inv: bool) -> Vec<F8> {
    let mut b = [[F; 8]; 16];
    b[..4].copy_from_slice(v);
    let r = if inv { spec::imix(&mut it.d, &b) } else { spec::mix(&mut it.d, &b) };
    r[..4].to_vec()
}

/// The entry of a table that the index bits (least significant first) select; past the end, `past`.
fn pick(it: &mut Interp, table: &[F8], ix: &[crate::bdd::B], past: F8) -> F8 {
    if table.is_empty() {
        return past;
    }
    let Some((&top, low)) = ix.split_last() else { return table.first().copied().unwrap_or(past) };
    let half = 1usize << low.len().min(20);
    let (a, b) = if table.len() > half { table.split_at(half) } else { (table, &[][..]) };
    if top == F {
        return pick(it, a, low, past);
    }
    if top == T {
        return pick(it, b, low, past);
    }
    let (x, y) = (pick(it, a, low, past), pick(it, b, low, past));
    let mut o = [F; 8];
    for j in 0..8 {
        o[j] = it.d.ite(top, y[j], x[j]);
    }
    o
}
const ZERO: F8 = [F; 8];

pub fn llvm(it: &mut Interp, st: &mut State, info: &Rc<InstInfo>, args: &[Vec<Byte>], tys: &[Ty]) -> R<Vec<Byte>> {
    let _ = tys;
    let l = info.link.as_str();
    if let Some(r) = l.strip_prefix("llvm.x86.aesni.") {
        let a = bytes(it, st, &args[0])?;
        let a = blks(&a);
        let op = r.split('.').next().unwrap();
        match op {
            "aesenc" | "aesenclast" | "aesdec" | "aesdeclast" => {
                let k = bytes(it, st, &args[1])?;
                let k = blks(&k);
                let mut o = vec![];
                for i in 0..a.len() {
                    o.push(match op {
                        "aesenc" => spec::enc(&mut it.d, &a[i], &k[i]),
                        "aesenclast" => spec::enc_last(&mut it.d, &a[i], &k[i]),
                        "aesdec" => spec::dec(&mut it.d, &a[i], &k[i]),
                        _ => spec::dec_last(&mut it.d, &a[i], &k[i]),
                    });
                }
                return Ok(out(&o));
            }
            "aesimc" => {
                let o = spec::imix(&mut it.d, &a[0]);
                return Ok(out(&[o]));
            }
            "aeskeygenassist" => {
                let imm = match it.sc(st, &args[1])? {
                    Sc::C(v) => v as u8,
                    _ => return unsup("aeskeygenassist immediate"),
                };
                let mut o = [[F; 8]; 16];
                for (h, src) in [(0usize, 4usize), (8, 12)] {
                    let mut s = [[F; 8]; 4];
                    for j in 0..4 {
                        s[j] = it.d.sub(AK::S, &a[0][src + j]);
                    }
                    for j in 0..4 {
                        o[h + j] = s[j];
                        o[h + 4 + j] = s[(j + 1) % 4];
                    }
                    o[h + 4] = spec::xor8(&mut it.d, &o[h + 4], &byte_bits(imm));
                }
                return Ok(out(&[o]));
            }
            _ => {}
        }
    }
    match l {
        "llvm.x86.sse41.ptestz" | "llvm.x86.avx.ptestz.256" => {
            let a = it.word(st, &args[0])?;
            let b = it.word(st, &args[1])?;
            let x = it.d.wand(&a, &b);
            let z = vec![F; x.len()];
            let e = it.d.weq(&x, &z);
            let mut w = vec![F; 32];
            w[0] = e;
            let s = it.norm(w);
            Ok(it.bytes_of(&s, 4))
        }
        "llvm.x86.sse41.ptestc" | "llvm.x86.avx.ptestc.256" => {
            let a = it.word(st, &args[0])?;
            let b = it.word(st, &args[1])?;
            let na = it.d.wnot(&a);
            let x = it.d.wand(&na, &b);
            let z = vec![F; x.len()];
            let e = it.d.weq(&x, &z);
            let mut w = vec![F; 32];
            w[0] = e;
            let s = it.norm(w);
            Ok(it.bytes_of(&s, 4))
        }
        "llvm.x86.sse41.ptestnzc" | "llvm.x86.avx.ptestnzc.256" => {
            let a = it.word(st, &args[0])?;
            let b = it.word(st, &args[1])?;
            let z = vec![F; a.len()];
            let x = it.d.wand(&a, &b);
            let na = it.d.wnot(&a);
            let y = it.d.wand(&na, &b);
            let (p, q) = (it.d.weq(&x, &z), it.d.weq(&y, &z));
            let mut w = vec![F; 32];
            w[0] = it.d.and(p ^ 1, q ^ 1);
            let s = it.norm(w);
            Ok(it.bytes_of(&s, 4))
        }
        "llvm.x86.sse3.ldu.dq" | "llvm.x86.avx.ldu.dq.256" => {
            let p = it.sc(st, &args[0])?;
            let p = it.ptr_from(&p);
            it.read(st, &p, if l.ends_with("256") { 32 } else { 16 }, 1)
        }
        "llvm.x86.sse2.pause" | "llvm.x86.sse2.lfence" | "llvm.x86.sse2.mfence" | "llvm.x86.sse.sfence" | "llvm.x86.avx.vzeroupper" => Ok(vec![]),
        "llvm.x86.ssse3.pshuf.b.128" | "llvm.x86.avx2.pshuf.b" | "llvm.x86.avx512.pshuf.b.512" => {
            let a = bytes(it, st, &args[0])?;
            let b = bytes(it, st, &args[1])?;
            let mut o = vec![];
            for (i, x) in b.iter().enumerate() {
                let t = &a[i / 16 * 16..i / 16 * 16 + 16];
                let mut f = pick(it, t, &x[..4], ZERO);
                for j in 0..8 {
                    f[j] = it.d.and(f[j], x[7] ^ 1);
                }
                o.push(Byte::from_bits(f));
            }
            Ok(o)
        }
        "llvm.x86.avx2.permd" | "llvm.x86.avx2.permps" => permute(it, st, &args[0], None, &args[1], 4),
        _ if l.starts_with("llvm.x86.avx512.permvar.") => {
            let w = match l.split('.').nth(4) {
                Some("qi") => 1,
                Some("hi") => 2,
                Some("si") | Some("sf") => 4,
                _ => 8,
            };
            permute(it, st, &args[0], None, &args[1], w)
        }
        _ if l.starts_with("llvm.x86.avx512.vpermi2var.") => {
            let w = match l.split('.').nth(4) {
                Some("qi") => 1,
                Some("hi") => 2,
                Some("d") | Some("ps") => 4,
                _ => 8,
            };
            permute(it, st, &args[0], Some(&args[2]), &args[1], w)
        }
        _ if l.starts_with("llvm.x86.avx512.pternlog.") => {
            let (a, b, c) = (bytes(it, st, &args[0])?, bytes(it, st, &args[1])?, bytes(it, st, &args[2])?);
            let Sc::C(imm) = it.sc(st, &args[3])? else { return unsup("variable ternary logic") };
            let mut o = vec![];
            for i in 0..a.len() {
                let mut f = [F; 8];
                for j in 0..8 {
                    for k in 0..8 {
                        if imm >> k & 1 == 1 {
                            let x = a[i][j] ^ (k >> 2 & 1 ^ 1) as u32;
                            let y = b[i][j] ^ (k >> 1 & 1 ^ 1) as u32;
                            let z = c[i][j] ^ (k & 1 ^ 1) as u32;
                            let m = it.d.and(x, y);
                            let m = it.d.and(m, z);
                            f[j] = it.d.or(f[j], m);
                        }
                    }
                }
                o.push(Byte::from_bits(f));
            }
            Ok(o)
        }
        "llvm.x86.sse2.packsswb.128" | "llvm.x86.sse2.packssdw.128" | "llvm.x86.sse2.packuswb.128" | "llvm.x86.sse41.packusdw"
        | "llvm.x86.avx2.packsswb" | "llvm.x86.avx2.packssdw" | "llvm.x86.avx2.packuswb" | "llvm.x86.avx2.packusdw" => {
            let es = if l.contains("wb") { 2 } else { 4 };
            let mut o = vec![];
            for half in 0..args[0].len() / 16 {
                for v in &args[..2] {
                    for c in v[16 * half..16 * half + 16].chunks(es) {
                        let w = it.word(st, c)?;
                        let n = es * 4;
                        let neg = *w.last().unwrap();
                        let mut over = F;
                        let keep = if l.contains("packus") { n } else { n - 1 };
                        for b in &w[keep..] {
                            let x = it.d.xor(*b, neg);
                            over = it.d.or(over, x);
                        }
                        let mut r = vec![];
                        for j in 0..n {
                            // the least or greatest value when it does not fit; unsigned packing takes negative to 0
                            let sat = if keep == n { neg ^ 1 } else if j == n - 1 { neg } else { neg ^ 1 };
                            let x = it.d.ite(over, sat, w[j]);
                            r.push(if keep == n { it.d.and(x, neg ^ 1) } else { x });
                        }
                        let s = it.norm(r);
                        o.extend(it.bytes_of(&s, es / 2));
                    }
                }
            }
            Ok(o)
        }
        // table lookups of Advanced SIMD: the tables in registers, then the indices
        _ if l.contains(".neon.tbl") || l.contains(".neon.vtbl") || l.contains(".neon.tbx") || l.contains(".neon.vtbx") => {
            let ext = l.contains("tbx");
            let a = if ext { &args[1..] } else { args };
            let (ix, tabs) = a.split_last().unwrap();
            let mut t = vec![];
            for x in tabs {
                t.extend(bytes(it, st, x)?);
            }
            let old = if ext { bytes(it, st, &args[0])? } else { vec![ZERO; ix.len()] };
            let ix = bytes(it, st, ix)?;
            let mut o = vec![];
            for (x, past) in ix.iter().zip(old) {
                o.push(Byte::from_bits(pick(it, &t, x, past)));
            }
            Ok(o)
        }
        _ if l.starts_with("llvm.aarch64.crypto.eor3u.") || l.starts_with("llvm.aarch64.crypto.bcaxu.") => {
            let (a, b, c) = (it.word(st, &args[0])?, it.word(st, &args[1])?, it.word(st, &args[2])?);
            let x = if l.contains("eor3") {
                it.d.wxor(&b, &c)
            } else {
                let n = it.d.wnot(&c);
                it.d.wand(&b, &n)
            };
            let x = it.d.wxor(&a, &x);
            let s = it.norm(x);
            Ok(it.bytes_of(&s, args[0].len()))
        }
        _ if l.starts_with("llvm.arm.neon.vbsl.") => {
            let (a, b, c) = (bytes(it, st, &args[0])?, bytes(it, st, &args[1])?, bytes(it, st, &args[2])?);
            let mut o = vec![];
            for i in 0..a.len() {
                let mut f = [F; 8];
                for j in 0..8 {
                    f[j] = it.d.ite(a[i][j], b[i][j], c[i][j]);
                }
                o.push(Byte::from_bits(f));
            }
            Ok(o)
        }
        // pairwise sums, maxima and minima; sums across a vector
        _ if [".neon.addp.", ".neon.vpadd.", ".neon.umaxp.", ".neon.vpmaxu.", ".neon.uminp.", ".neon.vpminu."].iter().any(|x| l.contains(x)) && !l.contains(".v2f") && !l.contains(".v4f") => {
            let es = lane_bytes(l).ok_or(()).or_else(|_| unsup(format!("foreign function {l}")))?;
            let all: Vec<Byte> = args[0].iter().chain(&args[1]).cloned().collect();
            let mut o = vec![];
            for c in all.chunks(2 * es) {
                let (x, y) = (it.word(st, &c[..es])?, it.word(st, &c[es..])?);
                let r = if l.contains("add") {
                    it.d.wadd(&x, &y)
                } else {
                    let lt = it.d.wult(&x, &y);
                    let c = if l.contains("max") { lt } else { lt ^ 1 };
                    it.d.wite(c, &y, &x)
                };
                let s = it.norm(r);
                o.extend(it.bytes_of(&s, es));
            }
            Ok(o)
        }
        _ if l.contains(".neon.uaddlv.") || l.contains(".neon.saddlv.") => {
            let es = lane_bytes(l).ok_or(()).or_else(|_| unsup(format!("foreign function {l}")))?;
            let out = if es == 4 { 8 } else { 4 };
            let mut acc = vec![F; out * 8];
            let (unsigned, full) = (l.contains("uaddlv"), it.d.op_budget);
            let mut any = F;
            if unsigned {
                it.d.op_budget = 30_000;
                let w = it.word(st, &args[0])?;
                for b in w {
                    any = it.d.or(any, b);
                }
            }
            for c in args[0].chunks(es) {
                let mut w = it.word(st, c)?;
                let fill = if l.contains("saddlv") { *w.last().unwrap() } else { F };
                w.resize(out * 8, fill);
                acc = it.d.wadd(&acc, &w);
            }
            it.d.op_budget = full;
            if unsigned {
                it.d.remember(&acc, 0, any ^ 1); // the sum of all lanes fits
            }
            let s = it.norm(acc);
            Ok(it.bytes_of(&s, out))
        }
        "llvm.riscv.orc.b.i32" | "llvm.riscv.orc.b.i64" => {
            let a = ibytes(it, st, &args[0])?;
            let mut o = vec![];
            for f in a {
                let mut x = F;
                for b in f {
                    x = it.d.or(x, b);
                }
                o.push([x; 8]);
            }
            Ok(iout(it, &o))
        }
        "llvm.riscv.brev8.i32" | "llvm.riscv.brev8.i64" => {
            let mut a = ibytes(it, st, &args[0])?;
            for f in &mut a {
                f.reverse();
            }
            Ok(iout(it, &a))
        }
        "llvm.riscv.xperm8.i32" | "llvm.riscv.xperm8.i64" => {
            let (t, x) = (ibytes(it, st, &args[0])?, ibytes(it, st, &args[1])?);
            let o: Vec<F8> = x.iter().map(|i| pick(it, &t, i, ZERO)).collect();
            Ok(iout(it, &o))
        }
        "llvm.aarch64.crypto.aese" | "llvm.arm.neon.aese" | "llvm.aarch64.crypto.aesd" | "llvm.arm.neon.aesd" => {
            let a = bytes(it, st, &args[0])?;
            let k = bytes(it, st, &args[1])?;
            let x = spec::xor16(&mut it.d, &blks(&a)[0], &blks(&k)[0]);
            let o = if l.ends_with("aese") {
                let s = spec::shift(&x);
                spec::sub(&mut it.d, &s, AK::S)
            } else {
                let s = spec::ishift(&x);
                spec::sub(&mut it.d, &s, AK::IS)
            };
            Ok(out(&[o]))
        }
        "llvm.aarch64.crypto.aesmc" | "llvm.arm.neon.aesmc" | "llvm.aarch64.crypto.aesimc" | "llvm.arm.neon.aesimc" => {
            let a = bytes(it, st, &args[0])?;
            let b = blks(&a)[0];
            let o = if l.ends_with("aesmc") { spec::mix(&mut it.d, &b) } else { spec::imix(&mut it.d, &b) };
            Ok(out(&[o]))
        }
        "llvm.riscv.aes64esm" | "llvm.riscv.aes64es" | "llvm.riscv.aes64dsm" | "llvm.riscv.aes64ds" => {
            let mut a = ibytes(it, st, &args[0])?;
            a.extend(ibytes(it, st, &args[1])?);
            let b = blks(&a)[0];
            let e = l.contains("64e");
            let x = if e { spec::shift(&b) } else { spec::ishift(&b) };
            let mut o = vec![];
            for f in &x[..8] {
                o.push(it.d.sub(if e { AK::S } else { AK::IS }, f));
            }
            if l.ends_with('m') {
                let mut m = col(it, &o[..4], !e);
                m.extend(col(it, &o[4..8], !e));
                o = m;
            }
            Ok(iout(it, &o))
        }
        "llvm.riscv.aes64im" => {
            let a = ibytes(it, st, &args[0])?;
            let mut m = col(it, &a[..4], true);
            m.extend(col(it, &a[4..8], true));
            Ok(iout(it, &m))
        }
        "llvm.riscv.aes64ks1i" => {
            let a = ibytes(it, st, &args[0])?;
            let r = match it.sc(st, &args[1])? {
                Sc::C(v) => v as usize,
                _ => return unsup("aes64ks1i round number"),
            };
            const RC: [u8; 11] = [1, 2, 4, 8, 0x10, 0x20, 0x40, 0x80, 0x1b, 0x36, 0];
            if r > 10 {
                return it.ub(st, "aes64ks1i with a round number above 10 is a reserved encoding");
            }
            let mut t = a[4..8].to_vec();
            if r != 10 {
                t.rotate_left(1);
            }
            for b in t.iter_mut() {
                *b = it.d.sub(AK::S, b);
            }
            t[0] = spec::xor8(&mut it.d, &t[0], &byte_bits(RC[r]));
            let mut o = t.clone();
            o.extend(t);
            Ok(iout(it, &o))
        }
        "llvm.riscv.aes64ks2" => {
            let a = ibytes(it, st, &args[0])?;
            let b = ibytes(it, st, &args[1])?;
            let mut o = vec![];
            for i in 0..4 {
                o.push(spec::xor8(&mut it.d, &a[4 + i], &b[i]));
            }
            for i in 0..4 {
                o.push(spec::xor8(&mut it.d, &o[i].clone(), &b[4 + i]));
            }
            Ok(iout(it, &o))
        }
        "llvm.riscv.aes32esi" | "llvm.riscv.aes32esmi" | "llvm.riscv.aes32dsi" | "llvm.riscv.aes32dsmi" => {
            let a = ibytes(it, st, &args[0])?;
            let b = ibytes(it, st, &args[1])?;
            let bs = match it.sc(st, &args[2])? {
                Sc::C(v) if v < 4 => v as usize,
                _ => return unsup("aes32 byte select"),
            };
            let e = l.contains("32e");
            let s = it.d.sub(if e { AK::S } else { AK::IS }, &b[bs]);
            let mut m: Vec<F8> = vec![s, [F; 8], [F; 8], [F; 8]];
            if l.ends_with("mi") {
                m = col(it, &m, !e);
            }
            m.rotate_right(bs);
            let mut o = vec![];
            for i in 0..4 {
                o.push(spec::xor8(&mut it.d, &a[i], &m[i]));
            }
            Ok(iout(it, &o))
        }
        _ if l.starts_with("llvm.arm.neon.vld1.") || l.starts_with("llvm.aarch64.neon.ld1.") => {
            let n = if [".v8i8", ".v4i16", ".v2i32", ".v1i64"].iter().any(|x| l.contains(x)) { 8 } else { 16 };
            let p = it.sc(st, &args[0])?;
            let p = it.ptr_from(&p);
            it.read(st, &p, n, 1)
        }
        _ if l.starts_with("llvm.arm.neon.vst1.") => {
            let p = it.sc(st, &args[0])?;
            let p = it.ptr_from(&p);
            it.write(st, &p, &args[1], 1)?;
            Ok(vec![])
        }
        // several registers, to or from consecutive memory
        _ if l.contains(".neon.ld1x") || l.contains(".neon.vld1x") => {
            let one = if [".v8i8", ".v4i16", ".v2i32", ".v1i64"].iter().any(|x| l.contains(x)) { 8 } else { 16 };
            let k = l.split("ld1x").nth(1).and_then(|x| x[..1].parse::<usize>().ok()).unwrap_or(0);
            let p = it.sc(st, &args[0])?;
            let p = it.ptr_from(&p);
            it.read(st, &p, one * k, 1)
        }
        _ if l.contains(".neon.st1x") || l.contains(".neon.vst1x") => {
            let (p, v) = if l.contains(".vst1x") { (&args[0], &args[1..]) } else { (args.last().unwrap(), &args[..args.len() - 1]) };
            let v: Vec<Byte> = v.iter().flatten().cloned().collect();
            let p = it.sc(st, p)?;
            let p = it.ptr_from(&p);
            it.write(st, &p, &v, 1)?;
            Ok(vec![])
        }
        _ => {
            unsup(format!("foreign function {l}"))
        }
    }
}

fn lane_bytes(l: &str) -> Option<usize> {
    l.split('.').find_map(|s| s.strip_prefix('v').and_then(|s| s.split_once('i')).and_then(|(n, w)| n.parse::<usize>().ok().and(w.parse::<usize>().ok()))).map(|w| w / 8)
}

/// Lanes of `w` bytes of one or two tables, selected by the low bits of the index lanes.
fn permute(it: &mut Interp, st: &mut State, a: &[Byte], b: Option<&Vec<Byte>>, ix: &[Byte], w: usize) -> R<Vec<Byte>> {
    let mut t = bytes(it, st, a)?;
    if let Some(b) = b {
        t.extend(bytes(it, st, b)?);
    }
    let bits = (t.len() / w).trailing_zeros() as usize;
    let mut o = vec![];
    for c in ix.chunks(w) {
        let i = it.word(st, c)?;
        for k in 0..w {
            let lane: Vec<F8> = t.iter().skip(k).step_by(w).copied().collect();
            o.push(Byte::from_bits(pick(it, &lane, &i[..bits], ZERO)));
        }
    }
    Ok(o)
}
