//! Deliberately wrong functions: each must be reported by the rule it is a control for, on every
//! run. They use the names of real entry points, so that the same obligations apply to them.
#![no_std]
#![allow(clippy::all, invalid_value, static_mut_refs)]
use aes_crypto::*;

// one wrong bit, on one value of one operand
pub fn op_xor_1(a: [u8; 16], b: [u8; 16]) -> [u8; 16] {
    let mut r: [u8; 16] = (AesBlock::from(a) ^ AesBlock::from(b)).into();
    if a[3] == 0x5a && b[7] == 0xc3 { r[15] ^= 0x80; }
    r
}
// a round key XORed in twice
pub fn enc_16_1(k: [u8; 16], p: [u8; 16]) -> [u8; 16] {
    let mut x: [u8; 16] = Aes128Enc::from(k).encrypt_block(AesBlock::from(p)).into();
    x[0] ^= if k[0] == 0 && p[15] == 0xff { 1 } else { 0 };
    x
}
// ignores one bit
pub fn eq_eq_1(a: [u8; 16], b: [u8; 16]) -> bool {
    let (mut a, mut b) = (a, b);
    a[11] |= 0x40;
    b[11] |= 0x40;
    AesBlock::from(a) == AesBlock::from(b)
}
// writes one byte too many when the destination is longer
pub fn slice_store_1(a: [u8; 16], d: &mut [u8]) {
    AesBlock::from(a).store_to(d);
    if d.len() > 40 { d[16] = 0; }
}
// reads out of bounds for one length
pub fn slice_try_1(s: &[u8], out: &mut [u8; 16], err: &mut usize) -> bool {
    if s.len() >= 15 {
        *out = unsafe { *(s.as_ptr() as *const [u8; 16]) };
        true
    } else {
        *err = s.len();
        false
    }
}
// branches on a secret
pub fn op_not_1(a: [u8; 16]) -> [u8; 16] {
    if a[0] == 0 { (!AesBlock::zero()).into() } else { (!AesBlock::from(a)).into() }
}
// reads memory at a secret address
pub fn op_and_1(a: [u8; 16], b: [u8; 16]) -> [u8; 16] {
    static T: [u8; 256] = [7; 256];
    let x = T[a[0] as usize];
    let mut r: [u8; 16] = (AesBlock::from(a) & AesBlock::from(b)).into();
    r[0] ^= x;
    r
}
// panics on one value; overflows on another
pub fn op_or_1(a: [u8; 16], b: [u8; 16]) -> [u8; 16] {
    assert!(a[5] != 0x77);
    let c = b[6] + 1;
    let _ = c;
    (AesBlock::from(a) | AesBlock::from(b)).into()
}
// relies on the layout of a tuple
pub fn bytes_new_1(a: [u8; 16]) -> [u8; 16] {
    let t: (u64, u64) = unsafe { core::mem::transmute(a) };
    unsafe { core::mem::transmute((t.0, t.1)) }
}
// reads uninitialised memory
pub fn op_zero_1() -> [u8; 16] {
    let x: core::mem::MaybeUninit<[u8; 16]> = core::mem::MaybeUninit::uninit();
    let mut y = unsafe { x.assume_init() };
    y[0] = 0;
    y
}
// remembers something between calls
pub fn bytes_arr_1(a: [u8; 16]) -> [u8; 16] {
    static mut N: u8 = 0;
    let mut r: [u8; 16] = AesBlock::from(a).into();
    unsafe {
        r[0] ^= N;
        N = N.wrapping_add(a[1]);
        let mut s: [u8; 16] = AesBlock::from(a).into();
        s[0] ^= N;
        if s[1] == 0xee { return s; }
    }
    r
}
// a chain that drops the last key of a long slice
pub fn chain_enc_1_5(a: [u8; 16], k: &[[u8; 16]; 5]) -> [u8; 16] {
    let k: [AesBlock; 5] = core::array::from_fn(|i| AesBlock::from(k[i]));
    AesBlock::from(a).chain_enc(&k[..4]).into()
}
// swapped lanes
pub fn pack_2_tuple(a: [u8; 16], b: [u8; 16]) -> [u8; 32] {
    AesBlockX2::from((AesBlock::from(b), AesBlock::from(a))).into()
}
