//! Signed integers of up to 640 bits: simple, slow and independent of the code under test.
use std::cmp::Ordering;

const N: usize = 10;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Z {
    neg: bool,
    m: [u64; N],
}

fn ucmp(a: &[u64; N], b: &[u64; N]) -> Ordering {
    for i in (0..N).rev() {
        match a[i].cmp(&b[i]) {
            Ordering::Equal => {}
            o => return o,
        }
    }
    Ordering::Equal
}
fn uadd(a: &[u64; N], b: &[u64; N]) -> [u64; N] {
    let mut r = [0; N];
    let mut c = 0u128;
    for i in 0..N {
        c += a[i] as u128 + b[i] as u128;
        r[i] = c as u64;
        c >>= 64;
    }
    assert_eq!(c, 0, "model integer overflow");
    r
}
fn usub(a: &[u64; N], b: &[u64; N]) -> [u64; N] {
    let mut r = [0; N];
    let mut borrow = false;
    for i in 0..N {
        let (x, b1) = a[i].overflowing_sub(b[i]);
        let (x, b2) = x.overflowing_sub(borrow as u64);
        r[i] = x;
        borrow = b1 || b2;
    }
    assert!(!borrow);
    r
}
fn len(a: &[u64; N]) -> usize {
    (0..N).rev().find(|&i| a[i] != 0).map_or(0, |i| i + 1)
}
fn bits(a: &[u64; N]) -> usize {
    let l = len(a);
    if l == 0 {
        0
    } else {
        l * 64 - a[l - 1].leading_zeros() as usize
    }
}
fn ushl1(a: &mut [u64; N], bit: u64) {
    let mut c = bit;
    for x in a.iter_mut() {
        let n = *x >> 63;
        *x = (*x << 1) | c;
        c = n;
    }
    assert_eq!(c, 0);
}

impl Z {
    pub const ZERO: Z = Z { neg: false, m: [0; N] };
    pub fn new(v: i128) -> Z {
        let mut m = [0; N];
        let u = v.unsigned_abs();
        m[0] = u as u64;
        m[1] = (u >> 64) as u64;
        Z { neg: v < 0, m }
    }
    pub fn from_u128(u: u128) -> Z {
        let mut m = [0; N];
        m[0] = u as u64;
        m[1] = (u >> 64) as u64;
        Z { neg: false, m }
    }
    pub fn pow10(p: u32) -> Z {
        let mut r = Z::new(1);
        let ten = Z::new(10);
        for _ in 0..p {
            r = r.mul(ten);
        }
        r
    }
    pub fn is_zero(&self) -> bool {
        len(&self.m) == 0
    }
    pub fn sgn(&self) -> i32 {
        if self.is_zero() {
            0
        } else if self.neg {
            -1
        } else {
            1
        }
    }
    pub fn neg(mut self) -> Z {
        if !self.is_zero() {
            self.neg = !self.neg;
        }
        self
    }
    pub fn abs(mut self) -> Z {
        self.neg = false;
        self
    }
    pub fn add(self, o: Z) -> Z {
        let r = if self.neg == o.neg {
            Z { neg: self.neg, m: uadd(&self.m, &o.m) }
        } else {
            match ucmp(&self.m, &o.m) {
                Ordering::Less => Z { neg: o.neg, m: usub(&o.m, &self.m) },
                _ => Z { neg: self.neg, m: usub(&self.m, &o.m) },
            }
        };
        r.norm()
    }
    fn norm(mut self) -> Z {
        if self.is_zero() {
            self.neg = false
        }
        self
    }
    pub fn sub(self, o: Z) -> Z {
        self.add(o.neg())
    }
    pub fn mul(self, o: Z) -> Z {
        let (la, lb) = (len(&self.m), len(&o.m));
        let mut r = [0u64; N];
        for i in 0..la {
            let mut c = 0u128;
            for j in 0..lb {
                if i + j >= N {
                    assert_eq!(o.m[j], 0, "model integer overflow");
                    continue;
                }
                c += r[i + j] as u128 + self.m[i] as u128 * o.m[j] as u128;
                r[i + j] = c as u64;
                c >>= 64;
            }
            let mut k = i + lb;
            while c > 0 {
                assert!(k < N, "model integer overflow");
                c += r[k] as u128;
                r[k] = c as u64;
                c >>= 64;
                k += 1;
            }
        }
        Z { neg: self.neg != o.neg, m: r }.norm()
    }
    pub fn shl(mut self, n: u32) -> Z {
        for _ in 0..n {
            ushl1(&mut self.m, 0);
        }
        self
    }
    /// Truncating division.
    pub fn div_rem(self, o: Z) -> (Z, Z) {
        assert!(!o.is_zero());
        let mut q = [0u64; N];
        let mut r = [0u64; N];
        if len(&self.m) <= 2 && len(&o.m) <= 2 {
            let a = self.m[0] as u128 | (self.m[1] as u128) << 64;
            let b = o.m[0] as u128 | (o.m[1] as u128) << 64;
            let (x, y) = (a / b, a % b);
            q[0] = x as u64;
            q[1] = (x >> 64) as u64;
            r[0] = y as u64;
            r[1] = (y >> 64) as u64;
        } else {
            for i in (0..bits(&self.m)).rev() {
                ushl1(&mut r, (self.m[i / 64] >> (i % 64)) & 1);
                if ucmp(&r, &o.m) != Ordering::Less {
                    r = usub(&r, &o.m);
                    q[i / 64] |= 1 << (i % 64);
                }
            }
        }
        (Z { neg: self.neg != o.neg, m: q }.norm(), Z { neg: self.neg, m: r }.norm())
    }
    pub fn to_i128(self) -> Option<i128> {
        if len(&self.m) > 2 {
            return None;
        }
        let u = self.m[0] as u128 | (self.m[1] as u128) << 64;
        if self.neg {
            if u <= 1 << 127 {
                Some((u as i128).wrapping_neg())
            } else {
                None
            }
        } else if u < 1 << 127 {
            Some(u as i128)
        } else {
            None
        }
    }
    pub fn to_u128(self) -> Option<u128> {
        if self.neg || len(&self.m) > 2 {
            return None;
        }
        Some(self.m[0] as u128 | (self.m[1] as u128) << 64)
    }
    pub fn bit_len(&self) -> usize {
        bits(&self.m)
    }
}
impl PartialOrd for Z {
    fn partial_cmp(&self, o: &Z) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Z {
    fn cmp(&self, o: &Z) -> Ordering {
        match (self.neg, o.neg) {
            (false, true) => Ordering::Greater,
            (true, false) => Ordering::Less,
            (false, false) => ucmp(&self.m, &o.m),
            (true, true) => ucmp(&o.m, &self.m),
        }
    }
}
