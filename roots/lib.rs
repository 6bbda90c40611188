//! Entry points for the analysis: thin callers of the public API of aes_crypto, nothing else.
//! They are never executed. The name of a function states its obligation (see engine/src/oblige.rs).
#![no_std]
#![allow(clippy::all)]
#![feature(formatting_options)]
use aes_crypto::*;
use core::fmt::{self, Alignment, Binary, Debug, DebugAsHex, Display, Formatter, FormattingOptions, LowerHex, Sign, UpperHex, Write};

macro_rules! ciphers {
    ($($k:literal $e:ident $d:ident : $enc1:ident $enc2:ident $enc4:ident $dec1:ident $dec2:ident $dec4:ident
       $rt1:ident $rt2:ident $rt4:ident $tr1:ident $tr2:ident $tr4:ident),*) => {$(
        pub fn $enc1(k: [u8; $k], p: [u8; 16]) -> [u8; 16] {
            $e::from(k).encrypt_block(AesBlock::from(p)).into()
        }
        pub fn $enc2(k: [u8; $k], p: [u8; 32]) -> [u8; 32] {
            $e::from(k).encrypt_2_blocks(AesBlockX2::from(p)).into()
        }
        pub fn $enc4(k: [u8; $k], p: [u8; 64]) -> [u8; 64] {
            $e::from(k).encrypt_4_blocks(AesBlockX4::from(p)).into()
        }
        pub fn $dec1(k: [u8; $k], c: [u8; 16]) -> [u8; 16] {
            $d::from(k).decrypt_block(AesBlock::from(c)).into()
        }
        pub fn $dec2(k: [u8; $k], c: [u8; 32]) -> [u8; 32] {
            $d::from(k).decrypt_2_blocks(AesBlockX2::from(c)).into()
        }
        pub fn $dec4(k: [u8; $k], c: [u8; 64]) -> [u8; 64] {
            $d::from(k).decrypt_4_blocks(AesBlockX4::from(c)).into()
        }
        pub fn $rt1(k: [u8; $k], p: [u8; 16]) -> [u8; 16] {
            let e = $e::from(k);
            e.decrypter().decrypt_block(e.encrypt_block(AesBlock::from(p))).into()
        }
        pub fn $rt2(k: [u8; $k], p: [u8; 32]) -> [u8; 32] {
            let e = $e::from(k);
            e.decrypter().decrypt_2_blocks(e.encrypt_2_blocks(AesBlockX2::from(p))).into()
        }
        pub fn $rt4(k: [u8; $k], p: [u8; 64]) -> [u8; 64] {
            let e = $e::from(k);
            e.decrypter().decrypt_4_blocks(e.encrypt_4_blocks(AesBlockX4::from(p))).into()
        }
        pub fn $tr1(k: [u8; $k], p: [u8; 16]) -> [u8; 16] {
            let d = $d::from(k);
            d.encrypter().encrypt_block(d.decrypt_block(AesBlock::from(p))).into()
        }
        pub fn $tr2(k: [u8; $k], p: [u8; 32]) -> [u8; 32] {
            let d = $d::from(k);
            d.encrypter().encrypt_2_blocks(d.decrypt_2_blocks(AesBlockX2::from(p))).into()
        }
        pub fn $tr4(k: [u8; $k], p: [u8; 64]) -> [u8; 64] {
            let d = $d::from(k);
            d.encrypter().encrypt_4_blocks(d.decrypt_4_blocks(AesBlockX4::from(p))).into()
        }
    )*};
}
ciphers!(
    16 Aes128Enc Aes128Dec: enc_16_1 enc_16_2 enc_16_4 dec_16_1 dec_16_2 dec_16_4 rt_16_1 rt_16_2 rt_16_4 tr_16_1 tr_16_2 tr_16_4,
    24 Aes192Enc Aes192Dec: enc_24_1 enc_24_2 enc_24_4 dec_24_1 dec_24_2 dec_24_4 rt_24_1 rt_24_2 rt_24_4 tr_24_1 tr_24_2 tr_24_4,
    32 Aes256Enc Aes256Dec: enc_32_1 enc_32_2 enc_32_4 dec_32_1 dec_32_2 dec_32_4 rt_32_1 rt_32_2 rt_32_4 tr_32_1 tr_32_2 tr_32_4
);

// a key object and the same object converted there and back, cloned, or assigned by clone_from
macro_rules! states {
    ($($k:literal $ek:ident $dk:ident : $a:ident $b:ident $c:ident $f:ident),*) => {$(
        pub fn $a(k: [u8; $k]) -> [$ek; 4] {
            let x = $ek::from(k);
            let mut y = $ek::from([0; $k]);
            y.clone_from(&x);
            [x.clone(), x.decrypter().encrypter(), y, x]
        }
        pub fn $b(k: [u8; $k]) -> [$dk; 4] {
            let x = $ek::from(k).decrypter();
            let mut y = $dk::from([0; $k]);
            y.clone_from(&x);
            [x.clone(), x.encrypter().decrypter(), y, x]
        }
        pub fn $c(k: [u8; $k]) -> [$dk; 4] {
            let x = $dk::from(k);
            let mut y = $dk::from([0; $k]);
            y.clone_from(&x);
            [x.clone(), x.encrypter().decrypter(), y, x]
        }
        pub fn $f(k: [u8; $k]) -> [$ek; 4] {
            let x = $dk::from(k).encrypter();
            let mut y = $ek::from([0; $k]);
            y.clone_from(&x);
            [x.clone(), x.decrypter().encrypter(), y, x]
        }
    )*};
}
states!(
    16 Aes128Enc Aes128Dec: state_16_a state_16_b state_16_c state_16_f,
    24 Aes192Enc Aes192Dec: state_24_a state_24_b state_24_c state_24_f,
    32 Aes256Enc Aes256Dec: state_32_a state_32_b state_32_c state_32_f
);

// key objects through conversions and clones; all lane widths of the result
macro_rules! conv {
    ($($k:literal $e:ident $d:ident : $a:ident $b:ident $c:ident $f:ident $g:ident $h:ident $i:ident $j:ident $l:ident $m:ident $n:ident $o:ident),*) => {$(
        pub fn $a(k: [u8; $k], p: [u8; 16]) -> [u8; 16] {
            $e::from(k).decrypter().encrypter().encrypt_block(AesBlock::from(p)).into()
        }
        pub fn $b(k: [u8; $k], p: [u8; 16]) -> [u8; 16] {
            $d::from(k).encrypter().encrypt_block(AesBlock::from(p)).into()
        }
        pub fn $c(k: [u8; $k], p: [u8; 16]) -> [u8; 16] {
            $d::from(k).encrypter().decrypter().decrypt_block(AesBlock::from(p)).into()
        }
        pub fn $f(k: [u8; $k], p: [u8; 16]) -> [u8; 16] {
            $e::from(k).decrypter().decrypt_block(AesBlock::from(p)).into()
        }
        pub fn $g(k: [u8; $k], p: [u8; 16]) -> [u8; 16] {
            $e::from(k).clone().encrypt_block(AesBlock::from(p)).into()
        }
        pub fn $h(k: [u8; $k], p: [u8; 16]) -> [u8; 16] {
            $d::from(k).clone().decrypt_block(AesBlock::from(p)).into()
        }
        pub fn $i(k: [u8; $k], p: [u8; 32]) -> [u8; 32] {
            $e::from(k).decrypter().clone().encrypter().clone().encrypt_2_blocks(AesBlockX2::from(p)).into()
        }
        pub fn $j(k: [u8; $k], p: [u8; 32]) -> [u8; 32] {
            $e::from(k).decrypter().encrypter().decrypter().decrypt_2_blocks(AesBlockX2::from(p)).into()
        }
        pub fn $l(k: [u8; $k], p: [u8; 64]) -> [u8; 64] {
            $d::from(k).encrypter().decrypter().encrypter().encrypt_4_blocks(AesBlockX4::from(p)).into()
        }
        pub fn $m(k: [u8; $k], p: [u8; 64]) -> [u8; 64] {
            $d::from(k).encrypter().decrypter().encrypter().decrypter().decrypt_4_blocks(AesBlockX4::from(p)).into()
        }
        // clone_from onto an object of another key
        pub fn $n(k: [u8; $k], q: [u8; $k], p: [u8; 16]) -> [u8; 16] {
            let mut e = $e::from(q);
            e.clone_from(&$e::from(k));
            e.encrypt_block(AesBlock::from(p)).into()
        }
        pub fn $o(k: [u8; $k], q: [u8; $k], p: [u8; 16]) -> [u8; 16] {
            let mut e = $d::from(q);
            e.clone_from(&$d::from(k));
            e.decrypt_block(AesBlock::from(p)).into()
        }
    )*};
}
conv!(
    16 Aes128Enc Aes128Dec: conv_e_16_1_a conv_e_16_1_b conv_d_16_1_c conv_d_16_1_f conv_e_16_1_g conv_d_16_1_h conv_e_16_2_i conv_d_16_2_j conv_e_16_4_l conv_d_16_4_m convq_e_16_1_n convq_d_16_1_o,
    24 Aes192Enc Aes192Dec: conv_e_24_1_a conv_e_24_1_b conv_d_24_1_c conv_d_24_1_f conv_e_24_1_g conv_d_24_1_h conv_e_24_2_i conv_d_24_2_j conv_e_24_4_l conv_d_24_4_m convq_e_24_1_n convq_d_24_1_o,
    32 Aes256Enc Aes256Dec: conv_e_32_1_a conv_e_32_1_b conv_d_32_1_c conv_d_32_1_f conv_e_32_1_g conv_d_32_1_h conv_e_32_2_i conv_d_32_2_j conv_e_32_4_l conv_d_32_4_m convq_e_32_1_n convq_d_32_1_o
);

// use through the traits, the object borrowed only
macro_rules! viatrait {
    ($($k:literal $e:ident: $a:ident $b:ident $c:ident $d:ident $f:ident),*) => {$(
        pub fn $a(k: [u8; $k], p: [u8; 16]) -> [u8; 16] {
            fn go<const K: usize, E: AesEncrypt<K>>(k: [u8; K], p: AesBlock) -> AesBlock {
                let e: E = k.into();
                let d = e.decrypter();
                let x = d.encrypter().encrypt_block(p);
                let _ = d;
                x
            }
            go::<$k, $e>(k, p.into()).into()
        }
        // the same object used twice, before and after conversions and other calls
        pub fn $b(k: [u8; $k], q: [u8; 16], p: [u8; 16]) -> [u8; 16] {
            let e = $e::from(k);
            let _ = e.encrypt_block(q.into());
            let d = e.decrypter();
            let _ = d.decrypt_block(q.into());
            e.encrypt_block(p.into()).into()
        }
        pub fn $c(k: [u8; $k], q: [u8; 64], p: [u8; 16]) -> [u8; 16] {
            let d = $e::from(k).decrypter();
            let _ = d.decrypt_4_blocks(q.into());
            let _ = d.encrypter().encrypt_4_blocks(q.into());
            d.decrypt_block(p.into()).into()
        }
        // an object of another key, used in between, does not interfere
        pub fn $d(k: [u8; $k], q: [u8; $k], p: [u8; 16]) -> [u8; 16] {
            let e = $e::from(k);
            let o = $e::from(q);
            let _ = o.encrypt_2_blocks(AesBlock::from(p).into());
            let _ = o.decrypter().decrypt_block(p.into());
            e.encrypt_block(p.into()).into()
        }
        pub fn $f(k: [u8; $k], q: [u8; $k], p: [u8; 32]) -> [u8; 32] {
            let e = $e::from(k).decrypter();
            let o = $e::from(q).decrypter();
            let _ = o.decrypt_2_blocks(p.into());
            let _ = o.encrypter().encrypt_block(AesBlock::zero());
            e.decrypt_2_blocks(p.into()).into()
        }
    )*};
}
viatrait!(
    16 Aes128Enc: conv_e_16_1_t pure_e_16_1_a pure_d_16_1_b pure_e_16_1_c pure_d_16_2_d,
    24 Aes192Enc: conv_e_24_1_t pure_e_24_1_a pure_d_24_1_b pure_e_24_1_c pure_d_24_2_d,
    32 Aes256Enc: conv_e_32_1_t pure_e_32_1_a pure_d_32_1_b pure_e_32_1_c pure_d_32_2_d
);

macro_rules! blocks {
    ($($t:ident $n:literal : $enc:ident $dec:ident $encl:ident $decl:ident
        $and:ident $or:ident $xor:ident $not:ident $anda:ident $ora:ident $xora:ident $zero:ident $def:ident
        $eq:ident $ne:ident $isz:ident
        $new:ident $arr:ident $rf:ident $slice:ident $into:ident $st:ident $copy:ident $cl:ident $cf:ident
        $tryn:ident $stn:ident),*) => {$(
        pub fn $enc(a: [u8; $n], k: [u8; $n]) -> [u8; $n] { $t::from(a).enc($t::from(k)).into() }
        pub fn $dec(a: [u8; $n], k: [u8; $n]) -> [u8; $n] { $t::from(a).dec($t::from(k)).into() }
        pub fn $encl(a: [u8; $n], k: [u8; $n]) -> [u8; $n] { $t::from(a).enc_last($t::from(k)).into() }
        pub fn $decl(a: [u8; $n], k: [u8; $n]) -> [u8; $n] { $t::from(a).dec_last($t::from(k)).into() }
        pub fn $and(a: [u8; $n], b: [u8; $n]) -> [u8; $n] { ($t::from(a) & $t::from(b)).into() }
        pub fn $or(a: [u8; $n], b: [u8; $n]) -> [u8; $n] { ($t::from(a) | $t::from(b)).into() }
        pub fn $xor(a: [u8; $n], b: [u8; $n]) -> [u8; $n] { ($t::from(a) ^ $t::from(b)).into() }
        pub fn $not(a: [u8; $n]) -> [u8; $n] { (!$t::from(a)).into() }
        pub fn $anda(a: [u8; $n], b: [u8; $n]) -> [u8; $n] { let mut x = $t::from(a); x &= $t::from(b); x.into() }
        pub fn $ora(a: [u8; $n], b: [u8; $n]) -> [u8; $n] { let mut x = $t::from(a); x |= $t::from(b); x.into() }
        pub fn $xora(a: [u8; $n], b: [u8; $n]) -> [u8; $n] { let mut x = $t::from(a); x ^= $t::from(b); x.into() }
        pub fn $zero() -> [u8; $n] { $t::zero().into() }
        pub fn $def() -> [u8; $n] { <$t as Default>::default().into() }
        pub fn $eq(a: [u8; $n], b: [u8; $n]) -> bool { $t::from(a) == $t::from(b) }
        pub fn $ne(a: [u8; $n], b: [u8; $n]) -> bool { $t::from(a) != $t::from(b) }
        pub fn $isz(a: [u8; $n]) -> bool { $t::from(a).is_zero() }
        pub fn $new(a: [u8; $n]) -> [u8; $n] { $t::new(a).into() }
        pub fn $arr(a: [u8; $n]) -> [u8; $n] { <$t as From<[u8; $n]>>::from(a).into() }
        pub fn $rf(a: &[u8; $n]) -> [u8; $n] { <$t as From<&[u8; $n]>>::from(a).into() }
        pub fn $slice(a: &[u8; $n]) -> [u8; $n] {
            match <$t as TryFrom<&[u8]>>::try_from(&a[..]) { Ok(x) => x.into(), Err(_) => [0; $n] }
        }
        pub fn $into(a: [u8; $n]) -> [u8; $n] { <[u8; $n]>::from($t::new(a)) }
        pub fn $st(a: [u8; $n]) -> [u8; $n] { let mut d = [0u8; $n]; $t::from(a).store_to(&mut d); d }
        pub fn $copy(a: [u8; $n], b: [u8; $n]) -> [u8; $n] {
            let x = $t::from(a);
            let mut y = x.clone();
            y ^= $t::from(b);
            y &= x;
            x.into()
        }
        pub fn $cl(a: [u8; $n]) -> [u8; $n] { <$t as Clone>::clone(&$t::from(a)).into() }
        pub fn $cf(a: [u8; $n], b: [u8; $n]) -> [u8; $n] {
            let mut x = $t::from(b);
            x.clone_from(&$t::from(a));
            x.into()
        }
        pub fn $tryn(s: &[u8], out: &mut [u8; $n], err: &mut usize) -> bool {
            match <$t as TryFrom<&[u8]>>::try_from(s) {
                Ok(x) => { *out = x.into(); true }
                Err(e) => { *err = e; false }
            }
        }
        pub fn $stn(a: [u8; $n], d: &mut [u8]) { $t::from(a).store_to(d) }
    )*};
}
blocks!(
    AesBlock 16: round_enc_1 round_dec_1 round_encl_1 round_decl_1
        op_and_1 op_or_1 op_xor_1 op_not_1 op_anda_1 op_ora_1 op_xora_1 op_zero_1 op_default_1
        eq_eq_1 eq_ne_1 eq_zero_1
        bytes_new_1 bytes_arr_1 bytes_ref_1 bytes_slice_1 bytes_into_1 bytes_store_1 pure_copy_1 bytes_clone_1 bytes_clonefrom_1
        slice_try_1 slice_store_1,
    AesBlockX2 32: round_enc_2 round_dec_2 round_encl_2 round_decl_2
        op_and_2 op_or_2 op_xor_2 op_not_2 op_anda_2 op_ora_2 op_xora_2 op_zero_2 op_default_2
        eq_eq_2 eq_ne_2 eq_zero_2
        bytes_new_2 bytes_arr_2 bytes_ref_2 bytes_slice_2 bytes_into_2 bytes_store_2 pure_copy_2 bytes_clone_2 bytes_clonefrom_2
        slice_try_2 slice_store_2,
    AesBlockX4 64: round_enc_4 round_dec_4 round_encl_4 round_decl_4
        op_and_4 op_or_4 op_xor_4 op_not_4 op_anda_4 op_ora_4 op_xora_4 op_zero_4 op_default_4
        eq_eq_4 eq_ne_4 eq_zero_4
        bytes_new_4 bytes_arr_4 bytes_ref_4 bytes_slice_4 bytes_into_4 bytes_store_4 pure_copy_4 bytes_clone_4 bytes_clonefrom_4
        slice_try_4 slice_store_4
);

pub fn mix_mc(a: [u8; 16]) -> [u8; 16] { AesBlock::from(a).mc().into() }
pub fn mix_imc(a: [u8; 16]) -> [u8; 16] { AesBlock::from(a).imc().into() }
pub fn mix_mcimc(a: [u8; 16]) -> [u8; 16] { AesBlock::from(a).mc().imc().into() }
pub fn mix_imcmc(a: [u8; 16]) -> [u8; 16] { AesBlock::from(a).imc().mc().into() }

pub fn u128_from(v: u128) -> [u8; 16] { AesBlock::from(v).into() }
pub fn u128_to(a: [u8; 16]) -> u128 { AesBlock::from(a).into() }
pub fn u128_rt(v: u128) -> u128 { u128::from(AesBlock::from(v)) }

// packing: names list what the bytes of the result must be
pub fn pack_2_tuple(a: [u8; 16], b: [u8; 16]) -> [u8; 32] {
    AesBlockX2::from((AesBlock::from(a), AesBlock::from(b))).into()
}
pub fn pack_4_tuple(a: [u8; 16], b: [u8; 16], c: [u8; 16], d: [u8; 16]) -> [u8; 64] {
    AesBlockX4::from((AesBlock::from(a), AesBlock::from(b), AesBlock::from(c), AesBlock::from(d))).into()
}
pub fn pack_4_pair(a: [u8; 32], b: [u8; 32]) -> [u8; 64] {
    AesBlockX4::from((AesBlockX2::from(a), AesBlockX2::from(b))).into()
}
pub fn bcast_2(a: [u8; 16]) -> [u8; 32] { AesBlockX2::from(AesBlock::from(a)).into() }
pub fn bcast_4(a: [u8; 16]) -> [u8; 64] { AesBlockX4::from(AesBlock::from(a)).into() }
pub fn bcast_4_pair(a: [u8; 32]) -> [u8; 64] { AesBlockX4::from(AesBlockX2::from(a)).into() }
pub fn split_2(v: [u8; 32], a: &mut [u8; 16], b: &mut [u8; 16]) {
    let (x, y) = <(AesBlock, AesBlock)>::from(AesBlockX2::from(v));
    *a = x.into();
    *b = y.into();
}
pub fn split_4(v: [u8; 64], a: &mut [u8; 16], b: &mut [u8; 16], c: &mut [u8; 16], d: &mut [u8; 16]) {
    let (x, y, z, w) = <(AesBlock, AesBlock, AesBlock, AesBlock)>::from(AesBlockX4::from(v));
    *a = x.into();
    *b = y.into();
    *c = z.into();
    *d = w.into();
}
pub fn split_4_pair(v: [u8; 64], a: &mut [u8; 32], b: &mut [u8; 32]) {
    let (x, y) = <(AesBlockX2, AesBlockX2)>::from(AesBlockX4::from(v));
    *a = x.into();
    *b = y.into();
}
pub fn split_4_deep(v: [u8; 64], a: &mut [u8; 16], b: &mut [u8; 16], c: &mut [u8; 16], d: &mut [u8; 16]) {
    let (p, q) = <(AesBlockX2, AesBlockX2)>::from(AesBlockX4::from(v));
    let (x, y) = <(AesBlock, AesBlock)>::from(p);
    let (z, w) = <(AesBlock, AesBlock)>::from(q);
    *a = x.into();
    *b = y.into();
    *c = z.into();
    *d = w.into();
}

// chains; [T; N] of keys, by const N
macro_rules! chains {
    ($($f:ident $g:ident $t:ident $b:literal $n:literal),* $(,)?) => {$(
        pub fn $f(a: [u8; $b], k: &[[u8; $b]; $n]) -> [u8; $b] {
            let k: [$t; $n] = core::array::from_fn(|i| $t::from(k[i]));
            $t::from(a).chain_enc(&k).into()
        }
        pub fn $g(a: [u8; $b], k: &[[u8; $b]; $n]) -> [u8; $b] {
            let k: [$t; $n] = core::array::from_fn(|i| $t::from(k[i]));
            $t::from(a).chain_dec(&k).into()
        }
    )*};
}
include!("chains.rs");

// formatting into a fixed buffer
pub struct Buf { pub buf: [u8; 16384], pub len: usize }
impl Write for Buf {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        let n = s.len();
        self.buf[self.len..self.len + n].copy_from_slice(s.as_bytes());
        self.len += n;
        Ok(())
    }
}
macro_rules! fmts {
    ($($f:ident $t:ident $n:literal $s:literal),* $(,)?) => {$(
        pub fn $f(a: [u8; $n], o: &mut Buf) -> bool {
            write!(o, $s, $t::from(a)).is_ok()
        }
    )*};
}
fmts!(
    fmt_lower_1 AesBlock 16 "{:x}", fmt_alower_1 AesBlock 16 "{:#x}",
    fmt_upper_1 AesBlock 16 "{:X}", fmt_aupper_1 AesBlock 16 "{:#X}",
    fmt_bin_1 AesBlock 16 "{:b}", fmt_abin_1 AesBlock 16 "{:#b}",
    fmt_disp_1 AesBlock 16 "{}", fmt_adisp_1 AesBlock 16 "{:#}",
    fmt_debug_1 AesBlock 16 "{:?}", fmt_adebug_1 AesBlock 16 "{:#?}",
    fmt_debug_2 AesBlockX2 32 "{:?}", fmt_adebug_2 AesBlockX2 32 "{:#?}",
    fmt_debug_4 AesBlockX4 64 "{:?}", fmt_adebug_4 AesBlockX4 64 "{:#?}",
);
// every combination of width, precision, fill, alignment, sign and zero flags, all unknown to the analysis
fn any_options(q: [u8; 9], alternate: bool) -> FormattingOptions {
    let mut o = FormattingOptions::new();
    o.alternate(alternate)
        .sign_aware_zero_pad(q[0] & 1 != 0)
        .fill((q[1] & 127) as char)
        .sign(if q[2] & 1 != 0 { Some(Sign::Plus) } else { None })
        .align(if q[3] & 2 != 0 { if q[3] & 1 != 0 { Some(Alignment::Left) } else { Some(Alignment::Center) } } else { None })
        .width(if q[0] & 2 != 0 { Some(u16::from_le_bytes([q[5], q[6]])) } else { None })
        .precision(if q[0] & 4 != 0 { Some(u16::from_le_bytes([q[7], q[8]])) } else { None })
        .debug_as_hex(if q[4] & 2 != 0 { if q[4] & 1 != 0 { Some(DebugAsHex::Lower) } else { Some(DebugAsHex::Upper) } } else { None });
    o
}
macro_rules! fmtopts {
    ($($f:ident $t:ident $n:literal $trait:ident $alt:literal),* $(,)?) => {$(
        pub fn $f(a: [u8; $n], o: &mut Buf, q: [u8; 9]) -> bool {
            fmt::$trait::fmt(&$t::from(a), &mut Formatter::new(o, any_options(q, $alt))).is_ok()
        }
    )*};
}
fmtopts!(
    fmt_lower_1_q AesBlock 16 LowerHex false, fmt_alower_1_q AesBlock 16 LowerHex true,
    fmt_upper_1_q AesBlock 16 UpperHex false, fmt_aupper_1_q AesBlock 16 UpperHex true,
    fmt_bin_1_q AesBlock 16 Binary false, fmt_abin_1_q AesBlock 16 Binary true,
    fmt_disp_1_q AesBlock 16 Display false, fmt_adisp_1_q AesBlock 16 Display true,
    fmt_debug_1_q AesBlock 16 Debug false, fmt_adebug_1_q AesBlock 16 Debug true,
    fmt_debug_2_q AesBlockX2 32 Debug false, fmt_adebug_2_q AesBlockX2 32 Debug true,
    fmt_debug_4_q AesBlockX4 64 Debug false, fmt_adebug_4_q AesBlockX4 64 Debug true,
);
// formatting into an output that refuses the write with the byte at one place, and no other
pub struct Gap { pub at: usize, pub pos: usize }
impl Write for Gap {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        let from = self.pos;
        self.pos += s.len();
        if from <= self.at && self.at < self.pos { Err(core::fmt::Error) } else { Ok(()) }
    }
}
macro_rules! fmterrs {
    ($($f:ident $t:ident $n:literal $s:literal $k:literal),* $(,)?) => {$(
        pub fn $f(a: [u8; $n]) -> bool {
            let mut o = Gap { at: $k, pos: 0 };
            write!(o, $s, $t::from(a)).is_err()
        }
    )*};
}
fmterrs!(
    fmterr_lower_1_a AesBlock 16 "{:x}" 0, fmterr_lower_1_b AesBlock 16 "{:x}" 13, fmterr_lower_1_c AesBlock 16 "{:x}" 31,
    fmterr_alower_1_a AesBlock 16 "{:#x}" 1, fmterr_alower_1_b AesBlock 16 "{:#x}" 33,
    fmterr_upper_1_a AesBlock 16 "{:X}" 1, fmterr_upper_1_b AesBlock 16 "{:X}" 31, fmterr_aupper_1_a AesBlock 16 "{:#X}" 1,
    fmterr_bin_1_a AesBlock 16 "{:b}" 0, fmterr_bin_1_b AesBlock 16 "{:b}" 127, fmterr_abin_1_a AesBlock 16 "{:#b}" 1,
    fmterr_disp_1_a AesBlock 16 "{}" 31, fmterr_adisp_1_a AesBlock 16 "{:#}" 31, fmterr_debug_1_a AesBlock 16 "{:?}" 31,
    fmterr_debug_2_a AesBlockX2 32 "{:?}" 0, fmterr_debug_2_b AesBlockX2 32 "{:?}" 33, fmterr_debug_2_c AesBlockX2 32 "{:?}" 67,
    fmterr_debug_4_a AesBlockX4 64 "{:?}" 101, fmterr_debug_4_b AesBlockX4 64 "{:?}" 135,
);
macro_rules! keyfmts {
    ($($f:ident $t:ident $n:literal $s:literal),* $(,)?) => {$(
        pub fn $f(a: [u8; $n], o: &mut Buf) -> bool {
            write!(o, $s, $t::from(a)).is_ok()
        }
    )*};
}
keyfmts!(
    keyfmt_e_16 Aes128Enc 16 "{:?}", keyfmt_d_16 Aes128Dec 16 "{:?}",
    keyfmt_e_24 Aes192Enc 24 "{:?}", keyfmt_d_24 Aes192Dec 24 "{:?}",
    keyfmt_e_32 Aes256Enc 32 "{:?}", keyfmt_d_32 Aes256Dec 32 "{:?}",
);
