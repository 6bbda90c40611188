//! FIPS-197 written from the standard, over abstract bytes. Nothing here is taken from the code
//! under analysis.
use crate::bdd::{B, F, T};
use crate::dom::{byte_bits, gf_mul, Dom, AK, F8};

pub type Blk = [F8; 16];

pub fn xor8(d: &mut Dom, a: &F8, b: &F8) -> F8 {
    let mut r = [F; 8];
    for j in 0..8 {
        r[j] = d.xor(a[j], b[j]);
    }
    r
}
pub fn xor16(d: &mut Dom, a: &Blk, b: &Blk) -> Blk {
    let mut r = [[F; 8]; 16];
    for i in 0..16 {
        r[i] = xor8(d, &a[i], &b[i]);
    }
    r
}
/// Sum of constant multiples in GF(2^8).
pub fn gf_sum(d: &mut Dom, terms: &[(F8, u8)]) -> F8 {
    let mut ts: [Vec<B>; 8] = Default::default();
    for (f, c) in terms {
        for k in 0..8 {
            let m = gf_mul(1 << k, *c);
            for j in 0..8 {
                if m >> j & 1 != 0 {
                    ts[j].push(f[k]);
                }
            }
        }
    }
    let mut r = [F; 8];
    for j in 0..8 {
        r[j] = d.xor_many(&ts[j]);
    }
    r
}
fn mixw(d: &mut Dom, a: &Blk, m: [u8; 4]) -> Blk {
    let mut r = [[F; 8]; 16];
    for c in 0..4 {
        for i in 0..4 {
            let mut ts = vec![];
            for k in 0..4 {
                ts.push((a[4 * c + k], m[(k + 4 - i) % 4]));
            }
            r[4 * c + i] = gf_sum(d, &ts);
        }
    }
    r
}
pub fn mix(d: &mut Dom, a: &Blk) -> Blk {
    mixw(d, a, [2, 3, 1, 1])
}
pub fn imix(d: &mut Dom, a: &Blk) -> Blk {
    mixw(d, a, [14, 11, 13, 9])
}
pub fn shift(a: &Blk) -> Blk {
    let mut r = *a;
    for c in 0..4 {
        for i in 0..4 {
            r[4 * c + i] = a[4 * ((c + i) % 4) + i];
        }
    }
    r
}
pub fn ishift(a: &Blk) -> Blk {
    let mut r = *a;
    for c in 0..4 {
        for i in 0..4 {
            r[4 * ((c + i) % 4) + i] = a[4 * c + i];
        }
    }
    r
}
pub fn sub(d: &mut Dom, a: &Blk, k: AK) -> Blk {
    let mut r = *a;
    for i in 0..16 {
        r[i] = d.sub(k, &a[i]);
    }
    r
}
pub fn enc(d: &mut Dom, a: &Blk, k: &Blk) -> Blk {
    let x = shift(a);
    let x = sub(d, &x, AK::S);
    let x = mix(d, &x);
    xor16(d, &x, k)
}
pub fn enc_last(d: &mut Dom, a: &Blk, k: &Blk) -> Blk {
    let x = shift(a);
    let x = sub(d, &x, AK::S);
    xor16(d, &x, k)
}
/// ShiftRows/SubBytes inverse, InvMixColumns, then the key (the "equivalent" inverse round).
pub fn dec(d: &mut Dom, a: &Blk, k: &Blk) -> Blk {
    let x = ishift(a);
    let x = sub(d, &x, AK::IS);
    let x = imix(d, &x);
    xor16(d, &x, k)
}
pub fn dec_last(d: &mut Dom, a: &Blk, k: &Blk) -> Blk {
    let x = ishift(a);
    let x = sub(d, &x, AK::IS);
    xor16(d, &x, k)
}
/// Key expansion, FIPS-197 section 5.2.
pub fn expand_key(d: &mut Dom, key: &[F8]) -> Vec<Blk> {
    let nk = key.len() / 4;
    let nr = nk + 6;
    let mut w: Vec<[F8; 4]> = key.chunks(4).map(|c| [c[0], c[1], c[2], c[3]]).collect();
    let mut rc = 1u8;
    for i in nk..4 * (nr + 1) {
        let mut t = w[i - 1];
        if i % nk == 0 {
            t.rotate_left(1);
            for b in t.iter_mut() {
                *b = d.sub(AK::S, b);
            }
            t[0] = xor8(d, &t[0], &byte_bits(rc));
            rc = gf_mul(rc, 2);
        } else if nk > 6 && i % nk == 4 {
            for b in t.iter_mut() {
                *b = d.sub(AK::S, b);
            }
        }
        let mut n = [[F; 8]; 4];
        for j in 0..4 {
            n[j] = xor8(d, &w[i - nk][j], &t[j]);
        }
        w.push(n);
    }
    w.chunks(4)
        .map(|c| {
            let mut b = [[F; 8]; 16];
            for i in 0..4 {
                for j in 0..4 {
                    b[4 * i + j] = c[i][j];
                }
            }
            b
        })
        .collect()
}
/// Cipher(), FIPS-197 figure 5.
pub fn cipher(d: &mut Dom, rk: &[Blk], p: &Blk) -> Blk {
    let n = rk.len() - 1;
    let mut s = xor16(d, p, &rk[0]);
    for k in &rk[1..n] {
        s = enc(d, &s, k);
    }
    enc_last(d, &s, &rk[n])
}
/// InvCipher(), FIPS-197 figure 12.
pub fn inv_cipher(d: &mut Dom, rk: &[Blk], c: &Blk) -> Blk {
    let n = rk.len() - 1;
    let mut s = xor16(d, c, &rk[n]);
    for k in rk[1..n].iter().rev() {
        s = ishift(&s);
        s = sub(d, &s, AK::IS);
        s = xor16(d, &s, k);
        s = imix(d, &s);
    }
    s = ishift(&s);
    s = sub(d, &s, AK::IS);
    xor16(d, &s, &rk[0])
}
/// Round keys of the equivalent inverse cipher.
pub fn inv_keys(d: &mut Dom, rk: &[Blk]) -> Vec<Blk> {
    let n = rk.len() - 1;
    (0..=n)
        .map(|i| {
            if i == 0 || i == n {
                rk[n - i]
            } else {
                imix(d, &rk[n - i])
            }
        })
        .collect()
}

/// The specification itself, against the examples printed in FIPS-197 (appendix C).
pub fn self_test() -> Result<usize, String> {
    let mut d = Dom::new();
    let hex = |s: &str| -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() };
    let blk = |v: &[u8]| -> Blk {
        let mut b = [[F; 8]; 16];
        for i in 0..16 {
            b[i] = byte_bits(v[i]);
        }
        b
    };
    let cases = [
        ("000102030405060708090a0b0c0d0e0f", "69c4e0d86a7b0430d8cdb78070b4c55a"),
        ("000102030405060708090a0b0c0d0e0f1011121314151617", "dda97ca4864cdfe06eaf70a0ec0d7191"),
        ("000102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f", "8ea2b7ca516745bfeafc49904b496089"),
    ];
    let p = blk(&hex("00112233445566778899aabbccddeeff"));
    let mut n = 0;
    for (k, c) in cases {
        let k: Vec<F8> = hex(k).into_iter().map(byte_bits).collect();
        let rk = expand_key(&mut d, &k);
        let e = cipher(&mut d, &rk, &p);
        if e != blk(&hex(c)) {
            return Err(format!("cipher with a {}-byte key", k.len()));
        }
        if inv_cipher(&mut d, &rk, &e) != p {
            return Err(format!("inverse cipher with a {}-byte key", k.len()));
        }
        let ik = inv_keys(&mut d, &rk);
        let mut s = xor16(&mut d, &e, &ik[0]);
        for k in &ik[1..ik.len() - 1] {
            s = dec(&mut d, &s, k);
        }
        s = dec_last(&mut d, &s, &ik[ik.len() - 1]);
        if s != p {
            return Err("equivalent inverse cipher".into());
        }
        n += 3;
    }
    let _ = T;
    Ok(n)
}
