//! Executable reference model of decimal fixed-point numbers: exact integers, written from the
//! documented semantics, sharing no code with the implementation.
mod big;
pub mod codes;
mod expect;
pub use big::Z;
pub use expect::{accepts, expect, int_of_kind, Expect};

/// A number type: `bits` wide storage, `prec` fractional digits.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Ty {
    pub bits: u32,
    pub prec: u32,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Mode {
    Floor,
    Nearest,
    Ceil,
}
impl Mode {
    pub fn from_i(i: i64) -> Mode {
        match i {
            -1 => Mode::Floor,
            0 => Mode::Nearest,
            1 => Mode::Ceil,
            _ => panic!("mode"),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Err {
    Overflow,
    DivisionByZero,
    Domain,
    Convert,
}
pub type R = Result<i128, Err>;

/// a / b rounded; ties away from zero.
pub fn div_round(a: Z, b: Z, mode: Mode) -> Z {
    let (q, r) = a.div_rem(b);
    if r.is_zero() {
        return q;
    }
    let sign = a.sgn() * b.sgn();
    let away = match mode {
        Mode::Floor => sign < 0,
        Mode::Ceil => sign > 0,
        Mode::Nearest => r.abs().add(r.abs()) >= b.abs(),
    };
    if away {
        q.add(Z::new(sign as i128))
    } else {
        q
    }
}

/// Largest s with s*s <= v.
pub fn isqrt(v: Z) -> Z {
    assert!(v.sgn() >= 0);
    let mut s = Z::ZERO;
    let mut b = (v.bit_len() as i32 + 1) / 2;
    while b >= 0 {
        let c = s.add(Z::new(1).shl(b as u32));
        if c.mul(c) <= v {
            s = c;
        }
        b -= 1;
    }
    s
}

impl Ty {
    pub const fn new(bits: u32, prec: u32) -> Ty {
        Ty { bits, prec }
    }
    pub fn name(&self) -> String {
        format!("i{}/{}", self.bits, self.prec)
    }
    pub fn min(&self) -> i128 {
        if self.bits == 128 {
            i128::MIN
        } else {
            -(1i128 << (self.bits - 1))
        }
    }
    pub fn max(&self) -> i128 {
        if self.bits == 128 {
            i128::MAX
        } else {
            (1i128 << (self.bits - 1)) - 1
        }
    }
    pub fn coef(&self) -> i128 {
        10i128.pow(self.prec)
    }
    fn zc(&self) -> Z {
        Z::new(self.coef())
    }
    pub fn fits(&self, z: Z) -> Option<i128> {
        z.to_i128().filter(|v| *v >= self.min() && *v <= self.max())
    }
    fn ovf(&self, z: Z) -> R {
        self.fits(z).ok_or(Err::Overflow)
    }
    fn clamp(&self, z: Z) -> i128 {
        self.fits(z).unwrap_or(if z.sgn() < 0 { self.min() } else { self.max() })
    }

    pub fn cadd(&self, a: i128, b: i128) -> R {
        self.ovf(Z::new(a).add(Z::new(b)))
    }
    pub fn csub(&self, a: i128, b: i128) -> R {
        self.ovf(Z::new(a).sub(Z::new(b)))
    }
    /// Amount times plain integer (also integer times integer).
    pub fn cmul_int(&self, a: i128, b: i128) -> R {
        self.ovf(Z::new(a).mul(Z::new(b)))
    }
    pub fn rmul(&self, a: i128, b: i128, m: Mode) -> R {
        self.ovf(div_round(Z::new(a).mul(Z::new(b)), self.zc(), m))
    }
    pub fn rdiv(&self, a: i128, b: i128, m: Mode) -> R {
        if b == 0 {
            return Err(Err::DivisionByZero);
        }
        self.ovf(div_round(Z::new(a).mul(self.zc()), Z::new(b), m))
    }
    /// Amount divided by plain integer (also integer by integer).
    pub fn rdiv_int(&self, a: i128, b: i128, m: Mode) -> R {
        if b == 0 {
            return Err(Err::DivisionByZero);
        }
        self.ovf(div_round(Z::new(a), Z::new(b), m))
    }
    /// Plain integer divided by amount. `None`: the integer itself is not representable as an
    /// amount (an operand outside the type), for which only an error is acceptable.
    pub fn int_rdiv(&self, a: i128, b: i128, m: Mode) -> Option<R> {
        let lhs = self.fits(Z::new(a).mul(self.zc()))?;
        Some(self.rdiv(lhs, b, m))
    }
    pub fn sat_add(&self, a: i128, b: i128) -> i128 {
        self.clamp(Z::new(a).add(Z::new(b)))
    }
    pub fn sat_sub(&self, a: i128, b: i128) -> i128 {
        self.clamp(Z::new(a).sub(Z::new(b)))
    }
    pub fn sat_mul(&self, a: i128, b: i128) -> i128 {
        self.clamp(Z::new(a).mul(Z::new(b)))
    }
    pub fn sat_rmul(&self, a: i128, b: i128, m: Mode) -> i128 {
        self.clamp(div_round(Z::new(a).mul(Z::new(b)), self.zc(), m))
    }
    pub fn cneg(&self, a: i128) -> R {
        self.ovf(Z::new(a).neg())
    }
    pub fn abs(&self, a: i128) -> R {
        self.ovf(Z::new(a).abs())
    }
    pub fn half_sum(&self, a: i128, b: i128, m: Mode) -> i128 {
        self.fits(div_round(Z::new(a).add(Z::new(b)), Z::new(2), m)).unwrap()
    }
    pub fn integral(&self, a: i128, m: Mode) -> i128 {
        self.fits(div_round(Z::new(a), self.zc(), m)).unwrap()
    }
    /// floor/ceil/round; `None` where the result is not representable.
    pub fn to_integral(&self, a: i128, m: Mode) -> Option<i128> {
        self.fits(Z::new(self.integral(a, m)).mul(self.zc()))
    }
    pub fn round_towards_zero_by(&self, a: i128, p: i128) -> i128 {
        if p == 0 {
            return a;
        }
        self.fits(Z::new(a).div_rem(Z::new(p)).0.mul(Z::new(p))).unwrap_or(a)
    }
    /// Smallest power of ten >= a (positive), mirrored for negatives. `None`: zero (no answer).
    pub fn next_power_of_ten(&self, a: i128) -> Option<R> {
        if a == 0 {
            return None;
        }
        let mut p = Z::new(1);
        let t = Z::new(a).abs();
        while p < t {
            p = p.mul(Z::new(10));
        }
        // Both bounds are those of the positive side: the negative side is mirrored.
        Some(if a == self.min() || self.fits(p).is_none() {
            Err(Err::Overflow)
        } else {
            self.ovf(if a < 0 { p.neg() } else { p })
        })
    }
    pub fn rsqrt(&self, a: i128, m: Mode) -> R {
        if a < 0 {
            return Err(Err::Domain);
        }
        let v = Z::new(a).mul(self.zc());
        let lo = isqrt(v);
        let exact = lo.mul(lo) == v;
        let up = match m {
            Mode::Floor => false,
            Mode::Ceil => !exact,
            // sqrt(v) > lo + 1/2  <=>  v > lo^2 + lo  (never equal to a tie for integers)
            Mode::Nearest => v > lo.mul(lo).add(lo),
        };
        self.ovf(if up { lo.add(Z::new(1)) } else { lo })
    }
    pub fn from_decimal(&self, mantissa: i128, exponent: i64) -> R {
        if exponent < -(self.prec as i64) || exponent > 10 {
            return Err(Err::Convert);
        }
        self.fits(Z::new(mantissa).mul(Z::pow10((exponent + self.prec as i64) as u32)))
            .ok_or(Err::Convert)
    }
    pub fn to_decimal(&self, a: i128, max_exponent: i64) -> (i128, i64) {
        if a == 0 {
            return (0, max_exponent.min(0));
        }
        let (mut m, mut e) = (a, -(self.prec as i64));
        while e < max_exponent && m % 10 == 0 {
            m /= 10;
            e += 1;
        }
        (m, e)
    }
    pub fn from_int(&self, v: Z) -> R {
        self.fits(v.mul(self.zc())).ok_or(Err::Convert)
    }

    pub fn display(&self, a: i128) -> String {
        let u = a.unsigned_abs();
        let c = self.coef() as u128;
        let mut s = String::new();
        if a < 0 {
            s.push('-');
        }
        s += &(u / c).to_string();
        s.push('.');
        let frac = if self.prec == 0 {
            String::new()
        } else {
            format!("{:0w$}", u % c, w = self.prec as usize)
        };
        let frac = frac.trim_end_matches('0');
        s += if frac.is_empty() { "0" } else { frac };
        s
    }

    /// Reference grammar: blanks? sign? digits ('.' digits)? blanks?
    pub fn parse(&self, text: &str, exact: bool) -> R {
        let t = text.trim().as_bytes();
        let (neg, t) = match t.first() {
            Some(b'-') => (true, &t[1..]),
            Some(b'+') => (false, &t[1..]),
            _ => (false, t),
        };
        let dot = t.iter().position(|&c| c == b'.');
        let (int, frac) = match dot {
            Some(d) => (&t[..d], Some(&t[d + 1..])),
            None => (t, None),
        };
        let digits = |s: &[u8]| !s.is_empty() && s.iter().all(u8::is_ascii_digit);
        if !digits(int) || frac.map_or(false, |f| !digits(f)) {
            return Err(Err::Convert);
        }
        let frac = frac.unwrap_or(b"");
        if exact && frac.len() > self.prec as usize {
            return Err(Err::Convert);
        }
        // |value| = digits / 10^len; only the first digits matter for range, keep numbers small.
        let int: Vec<u8> = int.iter().copied().skip_while(|&c| c == b'0').collect();
        if int.len() > 45 {
            return Err(Err::Convert);
        }
        let mut z = Z::ZERO;
        for &c in &int {
            z = z.mul(Z::new(10)).add(Z::new((c - b'0') as i128));
        }
        for i in 0..self.prec as usize {
            z = z.mul(Z::new(10)).add(Z::new(frac.get(i).map_or(0, |c| c - b'0') as i128));
        }
        if frac.get(self.prec as usize).map_or(false, |&c| c >= b'5') {
            z = z.add(Z::new(1)); // half away from zero
        }
        self.fits(if neg { z.neg() } else { z }).ok_or(Err::Convert)
    }

    /// |f - a/10^P| <= 2^-51 |a/10^P|
    pub fn to_f64_ok(&self, a: i128, f: f64) -> bool {
        if !f.is_finite() {
            return false;
        }
        if a == 0 {
            return f == 0.0;
        }
        let (m, e) = decompose(f);
        // f * 10^P = m * 2^e * 10^P vs a;   scaled by 2^k
        let k = (-e).max(0) as u32;
        if k > 240 || e > 128 {
            return false;
        }
        let fx = m.mul(self.zc()).shl(e.max(0) as u32);
        let ax = Z::new(a).shl(k);
        fx.sub(ax).abs().shl(51) <= ax.abs()
    }

    /// Acceptable results of converting a float: within 0.56 units + 1.24e-15 relative; error only
    /// where the value does not (clearly) fit.
    ///
    /// A float written with at most 15 significant digits, none beyond the precision, is exact.
    pub fn from_f64_ok(&self, f: f64, got: R) -> bool {
        if let Some(exact) = self.short_decimal(f) {
            return got == self.fits(exact).ok_or(Err::Convert);
        }
        // an exactly representable least amount is still an amount
        if f.is_finite() && f != 0.0 {
            let (m, e) = decompose(f);
            if e >= 0 && e < 100 && m.shl(e as u32).mul(self.zc()) == Z::new(self.min()) {
                return got == Ok(self.min());
            }
        }
        if !f.is_finite() {
            return got == Err(Err::Convert);
        }
        if f == 0.0 {
            return got == Ok(0);
        }
        let (m, e) = decompose(f);
        if e + 53 > 200 {
            return got == Err(Err::Convert);
        }
        let k = (-e).max(0) as u32;
        if k > 290 {
            return got == Ok(0);
        }
        let x = m.mul(self.zc()).shl(e.max(0) as u32); // f*10^P*2^k
        // tolerance * 1e17 * 2^k: digits are dropped with a threshold of 0.444... (that is up to
        // 0.5556 units), once down to 52 bits or more, once to the precision
        let e16 = Z::new(100_000_000_000_000_000);
        let tol = Z::new(56_000_000_000_000_000).shl(k).add(x.abs().mul(Z::new(124)));
        match got {
            Ok(v) => v >= self.min() && v <= self.max() && Z::new(v).shl(k).sub(x).abs().mul(e16) <= tol,
            Err(Err::Convert) => {
                let hi = Z::new(self.max()).shl(k);
                let lo = Z::new(self.min()).shl(k);
                // an error is fine unless clearly inside
                hi.sub(x).mul(e16) <= tol || x.sub(lo).mul(e16) <= tol
            }
            _ => false,
        }
    }
}

impl Ty {
    /// The raw amount of a float which is the image of a decimal of at most 15 significant digits
    /// without digits beyond the precision.
    pub fn short_decimal(&self, f: f64) -> Option<Z> {
        if !f.is_finite() || f == 0.0 || f.abs() >= 9007199254740992.0 || f.abs() < 1e-45 {
            return None;
        }
        let t = format!("{f:.14e}");
        if t.parse::<f64>() != Ok(f) {
            return None;
        }
        let (m, e) = t.split_once('e').unwrap();
        let mut m: i128 = m.replace('.', "").parse().unwrap();
        let mut e = e.parse::<i32>().unwrap() - 14;
        while m % 10 == 0 {
            m /= 10;
            e += 1;
        }
        let s = e + self.prec as i32;
        if s < 0 {
            return None;
        }
        Some(Z::new(m).mul(Z::pow10(s as u32)))
    }
}

/// f = m * 2^e exactly.
pub fn decompose(f: f64) -> (Z, i32) {
    let b = f.to_bits();
    let be = ((b >> 52) & 0x7ff) as i32;
    let frac = (b & ((1 << 52) - 1)) as i128;
    let (m, e) = if be == 0 { (frac, -1074) } else { (frac | 1 << 52, be - 1075) };
    // reduce trailing zeros to keep shifts small
    let tz = if m == 0 { 0 } else { m.trailing_zeros() as i32 };
    let (m, e) = if m == 0 { (0, 0) } else { (m >> tz, e + tz) };
    (Z::new(if b >> 63 == 1 { -m } else { m }), e)
}

/// SCALE compact encoding of an unsigned integer (specification of the codec).
pub fn compact(v: u128) -> Vec<u8> {
    if v < 1 << 6 {
        vec![(v as u8) << 2]
    } else if v < 1 << 14 {
        ((v as u16) << 2 | 1).to_le_bytes().to_vec()
    } else if v < 1 << 30 {
        ((v as u32) << 2 | 2).to_le_bytes().to_vec()
    } else {
        let n = ((128 - v.leading_zeros() + 7) / 8).max(4) as usize;
        let mut r = vec![((n - 4) as u8) << 2 | 3];
        r.extend_from_slice(&v.to_le_bytes()[..n]);
        r
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn basics() {
        let t = Ty::new(64, 9);
        assert_eq!(t.display(-1_500_000_000), "-1.5");
        assert_eq!(t.display(i64::MIN as i128), "-9223372036.854775808");
        assert_eq!(t.parse(" +1.0000000005", false), Ok(1_000_000_001));
        assert_eq!(t.parse("-0.0000000005", false), Ok(-1));
        assert_eq!(t.parse("1.", false), Err(Err::Convert));
        assert_eq!(t.rmul(1, 2, Mode::Ceil), Ok(1));
        assert_eq!(t.rsqrt(2_000_000_000, Mode::Floor), Ok(1414213562));
        assert_eq!(t.rsqrt(2_000_000_000, Mode::Ceil), Ok(1414213563));
        assert!(t.to_f64_ok(1_500_000_000, 1.5));
        assert!(!t.to_f64_ok(1_500_000_001, 1.5));
        assert!(t.from_f64_ok(1.5, Ok(1_500_000_000)));
        assert!(!t.from_f64_ok(1.5, Ok(1_500_000_001)));
        let w = Ty::new(128, 38);
        assert_eq!(w.rdiv(i128::MIN, i128::MIN, Mode::Nearest), Ok(10i128.pow(38)));
        assert_eq!(w.rmul(w.coef(), w.max(), Mode::Nearest), Ok(w.max()));
        assert_eq!(isqrt(Z::new(i128::MAX).mul(Z::new(i128::MAX))), Z::new(i128::MAX));
        let (q, r) = Z::new(i128::MIN).mul(Z::new(i128::MAX)).add(Z::new(-5)).div_rem(Z::new(i128::MAX));
        assert_eq!((q, r), (Z::new(i128::MIN), Z::new(-5)));
    }
}
