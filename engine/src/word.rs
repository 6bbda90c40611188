//! Arithmetic on abstract words (little-endian bit vectors).
use crate::bdd::{B, F, T};
use crate::dom::Dom;

pub type W = Vec<B>;

pub fn wconst(v: u128, n: usize) -> W {
    (0..n).map(|i| if i < 128 && (v >> i) & 1 != 0 { T } else { F }).collect()
}
pub fn wval(w: &[B]) -> Option<u128> {
    let mut v = 0u128;
    for (i, b) in w.iter().enumerate() {
        if *b == T {
            v |= 1 << i;
        } else if *b != F {
            return None;
        }
    }
    Some(v)
}
impl Dom {
    pub fn wand(&mut self, a: &[B], b: &[B]) -> W {
        (0..a.len()).map(|i| self.and(a[i], b[i])).collect()
    }
    pub fn wor(&mut self, a: &[B], b: &[B]) -> W {
        (0..a.len()).map(|i| self.or(a[i], b[i])).collect()
    }
    pub fn wxor(&mut self, a: &[B], b: &[B]) -> W {
        (0..a.len()).map(|i| self.xor(a[i], b[i])).collect()
    }
    pub fn wnot(&mut self, a: &[B]) -> W {
        a.iter().map(|x| x ^ 1).collect()
    }
    fn maj(&mut self, a: B, b: B, c: B) -> B {
        if a == b {
            return a;
        }
        if a == c {
            return a;
        }
        if b == c {
            return b;
        }
        // a != b structurally; (a&b) | c&(a^b)
        let x = self.xor(a, b);
        self.ite(x, c, a)
    }
    pub fn wadc(&mut self, a: &[B], b: &[B], mut c: B) -> (W, B, B) {
        let mut r = Vec::with_capacity(a.len());
        let mut prev = c;
        for i in 0..a.len() {
            let x = self.xor(a[i], b[i]);
            r.push(self.xor(x, c));
            prev = c;
            c = self.maj(a[i], b[i], c);
        }
        (r, c, prev)
    }
    pub fn wadd(&mut self, a: &[B], b: &[B]) -> W {
        self.wadc(a, b, F).0
    }
    pub fn wsub(&mut self, a: &[B], b: &[B]) -> W {
        let nb = self.wnot(b);
        self.wadc(a, &nb, T).0
    }
    pub fn wneg(&mut self, a: &[B]) -> W {
        let z = vec![F; a.len()];
        self.wsub(&z, a)
    }
    pub fn wmul(&mut self, a: &[B], b: &[B]) -> W {
        let n = a.len();
        let (a, b) = if wval(a).is_some() { (b, a) } else { (a, b) };
        let mut acc = vec![F; n];
        for i in 0..n {
            if b[i] == F {
                continue;
            }
            let mut p = vec![F; n];
            for j in 0..n - i {
                p[i + j] = self.and(a[j], b[i]);
            }
            acc = self.wadd(&acc, &p);
        }
        acc
    }
    /// Remember that the word equals the constant exactly when the condition holds.
    pub fn remember(&mut self, w: &[B], c: u128, holds: B) {
        if wval(w).is_none() {
            let n = w.iter().rposition(|b| *b != F).map(|k| k + 1).unwrap_or(0);
            self.tests.insert(w[..n].to_vec(), (c, holds));
        }
    }
    pub fn weq(&mut self, a: &[B], b: &[B]) -> B {
        for (x, y) in [(a, b), (b, a)] {
            if let (Some(v), false) = (wval(y), self.tests.is_empty()) {
                let n = x.iter().rposition(|b| *b != F).map(|k| k + 1).unwrap_or(0);
                if let Some(&(c, e)) = self.tests.get(&x[..n]) {
                    if v == c {
                        return e;
                    }
                }
            }
        }
        let mut acc = T;
        for i in 0..a.len() {
            let x = self.xor(a[i], b[i]) ^ 1;
            acc = self.and(acc, x);
            if acc == F {
                break;
            }
        }
        acc
    }
    pub fn wult(&mut self, a: &[B], b: &[B]) -> B {
        let nb = self.wnot(b);
        self.wadc(a, &nb, T).1 ^ 1
    }
    pub fn wslt(&mut self, a: &[B], b: &[B]) -> B {
        let n = a.len();
        let (mut a, mut b) = (a.to_vec(), b.to_vec());
        a[n - 1] ^= 1;
        b[n - 1] ^= 1;
        self.wult(&a, &b)
    }
    pub fn wite(&mut self, c: B, a: &[B], b: &[B]) -> W {
        (0..a.len()).map(|i| self.ite(c, a[i], b[i])).collect()
    }
    pub fn shl_c(a: &[B], k: usize) -> W {
        let n = a.len();
        (0..n).map(|i| if i >= k { a[i - k] } else { F }).collect()
    }
    pub fn shr_c(a: &[B], k: usize, fill: B) -> W {
        let n = a.len();
        (0..n).map(|i| if i + k < n { a[i + k] } else { fill }).collect()
    }
    pub fn rotl_c(a: &[B], k: usize) -> W {
        let n = a.len();
        (0..n).map(|i| a[(i + n - k % n) % n]).collect()
    }
    /// Shift/rotate by a symbolic amount: s holds the low log2(n) bits (already masked).
    pub fn barrel(&mut self, a: &[B], s: &[B], f: impl Fn(&[B], usize) -> W) -> W {
        let mut cur = a.to_vec();
        for (i, c) in s.iter().enumerate() {
            if *c == F {
                continue;
            }
            let sh = f(&cur, 1 << i);
            cur = self.wite(*c, &sh, &cur);
        }
        cur
    }
    pub fn wudivrem(&mut self, a: &[B], b: &[B]) -> (W, W) {
        let n = a.len();
        if let Some(k) = wval(b) {
            if k.is_power_of_two() {
                let s = k.trailing_zeros() as usize;
                let q = Self::shr_c(a, s, F);
                let r = (0..n).map(|i| if i < s { a[i] } else { F }).collect();
                return (q, r);
            }
        }
        let mut r: W = vec![F; n + 1];
        let mut bb = b.to_vec();
        bb.push(F);
        let mut q = vec![F; n];
        for i in (0..n).rev() {
            r.rotate_right(1);
            r[0] = a[i];
            let lt = self.wult(&r, &bb);
            let d = self.wsub(&r, &bb);
            r = self.wite(lt, &r, &d);
            q[i] = lt ^ 1;
        }
        r.truncate(n);
        (q, r)
    }
    pub fn wclass(&self, a: &[B]) -> u8 {
        a.iter().fold(0, |k, x| k | self.b.class(*x))
    }
}
