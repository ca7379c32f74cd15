//! Workload values: amounts concentrated where arithmetic, rounding and digit handling turn.
use crate::core::Cx;
use fxmodel::codes::*;
use fxmodel::{Ty, Z};

fn limb(cx: &Cx) -> u64 {
    match cx.below(10) {
        0 => 0,
        1 => 1,
        2 => u64::MAX,
        3 => 1 << 63,
        4 => (1 << 63) - 1,
        5 => (1 << 63) + 1,
        6 => u64::MAX - 1,
        7 => 0xffff_ffff,
        8 => 0xffff_ffff_0000_0000,
        _ => cx.below(0),
    }
}

fn fit(ty: Ty, v: i128) -> i128 {
    if v >= ty.min() && v <= ty.max() {
        v
    } else {
        // keep the low bits
        let m = (v as u128) << (128 - ty.bits);
        (m as i128) >> (128 - ty.bits)
    }
}

/// Any raw amount of the type.
pub fn raw(cx: &Cx, ty: Ty) -> i128 {
    let coef = ty.coef();
    let small = |n: i64| cx.range(-n, n) as i128;
    let sign = |v: i128| if cx.chance(1, 2) { v.wrapping_neg() } else { v };
    let v = match cx.below(16) {
        0 => small(3),
        1 => sign(coef.wrapping_mul(1 + cx.below(9) as i128)),
        2 => sign(coef.wrapping_add(small(2))),
        3 => sign((coef / 2).wrapping_add(small(2))),
        4 => ty.max() - cx.below(4) as i128,
        5 => ty.min() + cx.below(4) as i128,
        6 => sign(ty.max() / 2 + small(2)),
        7 => {
            // powers of ten and neighbours
            let d = cx.below(39) as u32;
            sign(10i128.checked_pow(d).unwrap_or(1).wrapping_add(small(1)))
        }
        8 => sign((1i128 << cx.below(127)).wrapping_add(small(1))),
        9 => {
            // sparse decimal digits
            let d = cx.below(38) as u32;
            sign(10i128.pow(d).wrapping_mul(cx.below(100) as i128))
        }
        10 => {
            // integral part and a tie-ish fraction
            let i = cx.below(1 << 20) as i128;
            let f = match cx.below(5) {
                0 => coef / 2,
                1 => coef / 2 - 1,
                2 => coef / 2 + 1,
                3 => coef - 1,
                _ => cx.u128() as i128 % coef,
            };
            sign(i.wrapping_mul(coef).wrapping_add(f))
        }
        11 => {
            // around sqrt(MAX * coef): products at the edge
            let e = fxmodel::isqrt(Z::new(ty.max()).mul(Z::new(coef))).to_i128().unwrap();
            sign(e.wrapping_add(small(3)))
        }
        12 => ((limb(cx) as u128) << 64 | limb(cx) as u128) as i128,
        13 => {
            let bits = cx.below(128) as u32;
            let u = cx.u128() >> bits;
            u as i128
        }
        14 => sign(cx.below(1_000_000) as i128),
        _ => cx.u128() as i128,
    };
    fit(ty, v)
}

/// A plain integer operand of the layout.
pub fn int(cx: &Cx, ty: Ty) -> i128 {
    if cx.chance(1, 3) {
        fit(ty, raw(cx, ty))
    } else {
        fit(ty, match cx.below(6) {
            0 => cx.range(-3, 3) as i128,
            1 => cx.range(-1000, 1000) as i128,
            2 => ty.max(),
            3 => ty.min(),
            4 => ty.max() / (1 + cx.below(1000) as i128),
            _ => 10i128.pow(cx.below(19) as u32),
        })
    }
}

/// What a result is to land near: an end of the range every now and then.
fn target(cx: &Cx, ty: Ty) -> i128 {
    match cx.below(8) {
        0 => ty.max(),
        1 => ty.min(),
        _ => raw(cx, ty),
    }
}
/// b such that a*b lands near an end of the range.
fn edge_factor(cx: &Cx, ty: Ty, a: i128) -> i128 {
    if a == 0 {
        return int(cx, ty);
    }
    let t = *cx.pick(&[ty.max(), ty.min()]);
    let b = Z::new(t).div_rem(Z::new(a)).0.add(Z::new(cx.range(-1, 1) as i128));
    ty.fits(b).unwrap_or_else(|| int(cx, ty))
}
/// b such that a*b/coef lands near a chosen value / tie.
pub fn mul_partner(cx: &Cx, ty: Ty, a: i128) -> i128 {
    if a == 0 {
        return raw(cx, ty);
    }
    let half = cx.chance(1, 2) as i128;
    let t = target(cx, ty);
    let num = Z::new(t).mul(Z::new(2)).add(Z::new(half)).mul(Z::new(ty.coef()));
    let b = num.div_rem(Z::new(a).mul(Z::new(2))).0.add(Z::new(cx.range(-1, 1) as i128));
    ty.fits(b).unwrap_or_else(|| raw(cx, ty))
}
/// a such that a*coef/b lands near a chosen value / tie.
pub fn div_partner(cx: &Cx, ty: Ty, b: i128, int: bool) -> i128 {
    let t = target(cx, ty);
    let half = cx.chance(1, 2) as i128;
    let c = if int { 1 } else { ty.coef() };
    let num = Z::new(t).mul(Z::new(2)).add(Z::new(half)).mul(Z::new(b));
    let a = num.div_rem(Z::new(c).mul(Z::new(2))).0.add(Z::new(cx.range(-1, 1) as i128));
    ty.fits(a).unwrap_or_else(|| raw(cx, ty))
}

/// Division whose estimates of quotient digits go wrong: a divisor with a saturated low word, a
/// dividend just below a multiple of it.
fn limbs_div(cx: &Cx, ty: Ty) -> (Option<i128>, Option<i128>) {
    let low = *cx.pick(&[u64::MAX, u64::MAX, u64::MAX - 1, 1 << 63, 0, 0x7fff_ffff_ffff_ffff]);
    let high = cx.below(0) >> 1 >> cx.below(63);
    let v = (high as i128) << 64 | low as i128;
    if v == 0 {
        return (None, None);
    }
    // q * v / 10^P must fit
    let most = Z::new(i128::MAX).mul(Z::new(ty.coef())).div_rem(Z::new(v)).0;
    let q = match most.to_i128() {
        Some(m) if cx.chance(1, 2) => m / (1 + cx.below(1000) as i128),
        Some(m) => (cx.u128() >> 1 >> cx.below(127)) as i128 % m.max(1),
        None => (cx.u128() >> 1 >> cx.below(127)) as i128,
    };
    // often a whole number of words
    let q = if cx.chance(1, 2) { q >> 64 << 64 } else { q };
    let a = Z::new(q).mul(Z::new(v)).div_rem(Z::new(ty.coef())).0.sub(Z::new(cx.below(3) as i128));
    let s = |x: i128| if cx.chance(1, 4) { -x } else { x };
    (a.to_i128().filter(|a| *a != i128::MIN).map(s), Some(s(v)))
}

/// A decimal text, mostly a valid one.
pub fn text(cx: &Cx, ty: Ty) -> String {
    let mut s = match cx.below(8) {
        0 | 1 | 2 => ty.display(raw(cx, ty)),
        3 => {
            // more fractional digits than the precision
            let mut s = ty.display(raw(cx, ty));
            let d = s.find('.').unwrap();
            while s.len() - d - 1 < ty.prec as usize {
                s.push('0');
            }
            for _ in 0..1 + cx.below(4) {
                s.push(*cx.pick(&['0', '4', '5', '9', '1']));
            }
            s
        }
        4 => int(cx, ty).to_string(),
        5 => {
            // integral part at the edge
            let t = (ty.max() / ty.coef()).saturating_add(cx.range(-1, 1) as i128);
            let mut s = if cx.chance(1, 2) { format!("-{t}") } else { t.to_string() };
            if cx.chance(2, 3) {
                s.push('.');
                for _ in 0..1 + cx.below(ty.prec as u64 + 2) {
                    s.push((b'0' + cx.below(10) as u8) as char);
                }
            }
            s
        }
        6 => {
            let mut s = String::new();
            for _ in 0..1 + cx.below(6) {
                s.push(*cx.pick(&['0', '1', '9', '.', '-', '+', 'e', ' ', '5', '_']));
            }
            s
        }
        _ => format!("{}.{}", cx.below(200), cx.below(100000)),
    };
    match cx.below(12) {
        0 => s.insert(0, '+'),
        1 => s.insert(0, ' '),
        2 => s.push_str(" \t"),
        3 => s.insert_str(usize::from(s.starts_with('-')), "000"),
        4 => s.push('0'),
        5 => {
            // other people's notations, most of them at an end
            let mut at = match cx.below(4) {
                0 => 0,
                1 => cx.usize(s.len() + 1),
                _ => s.len(),
            };
            while !s.is_char_boundary(at) {
                at -= 1;
            }
            let piece: &&str = cx.pick(STRANGE);
            s.insert_str(at, piece);
        }
        _ => {}
    }
    s
}
/// Pieces of other notations and scripts.
pub const STRANGE: &[&str] = &[
    "\u{a0}", "\u{3000}", "\u{2003}", "\u{85}", "\u{200b}", "\u{feff}", "\u{0}", "\t", "\n", "\r\n", "\u{b}", "\u{c}", "\u{661}", "\u{ff11}", "\u{2212}",
    "\u{ff0e}", "\u{bd}", "\u{b2}", "\u{1d7ce}", "\u{966}", ",", "_", "e1", "E1", "e+0", "E0", "E-1", "e", "+", "-", "inf", "NaN", "nan", "infinity", "0x", "0b", "0o",
    "'", "/", ":", "%", "$", "i64", "f64", "_i64", "#", "//", ".", ",0", "=", "\"", "\u{20ac}", "k", "d", "D0", "p0",
];

/// A binary float: amounts, neighbours, extremes.
pub fn float(cx: &Cx, ty: Ty) -> f64 {
    match cx.below(10) {
        8 => {
            // half way between two amounts, as near as a float gets
            let v = (raw(cx, ty) as f64 + if cx.chance(1, 2) { 0.5 } else { -0.5 }) / ty.coef() as f64;
            f64::from_bits(v.to_bits().wrapping_add(cx.range(-1, 1) as u64))
        }
        0 | 1 | 2 => raw(cx, ty) as f64 / ty.coef() as f64,
        3 => ty.display(raw(cx, ty)).parse().unwrap(),
        4 => *cx.pick(&[0.0, -0.0, 1.0, -1.0, 0.1, 1e-300, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 0.5, 1e22, 1e23, -0.5]),
        5 => {
            let v = raw(cx, ty) as f64 / ty.coef() as f64;
            f64::from_bits(v.to_bits().wrapping_add(cx.range(-2, 2) as u64))
        }
        6 => cx.range(-100000, 100000) as f64 / 8.0,
        7 => f64::from_bits(cx.below(0)),
        _ => {
            let e = cx.range(-140, 140) as i32;
            let v = (1.0 + cx.below(1 << 52) as f64 / (1u64 << 52) as f64) * 2f64.powi(e);
            if cx.chance(1, 2) { -v } else { v }
        }
    }
}

pub const BINARY: [u32; 19] = [
    CADD, CSUB, CMUL_INT, INT_CMUL, RMUL, RDIV, RDIV_INT, INT_RDIV, INT_RDIV_INT, SAT_ADD, SAT_SUB, SAT_MUL_INT,
    INT_SAT_MUL, SAT_RMUL, HALF_SUM, RTZ_BY, INT_CADD, INT_CSUB, INT_CMUL_INT,
];
pub const UNARY: [u32; 9] = [CNEG, ABS, RECIP, INTEGRAL, FLOOR, CEIL, ROUND, NEXT_POW10, RSQRT];
pub const OTHER: [u32; 15] = [
    FROM_DECIMAL, TO_DECIMAL, FROM_INT, TO_F64, FROM_F64, CMP, SIGNUM, CONSTS, PARSE, PARSE_EXACT, DISPLAY, DEBUG,
    INT_SAT_ADD, INT_SAT_SUB, INT_SAT_MUL_INT,
];
/// Operations that can fail, for C02.
pub const FALLIBLE: [u32; 24] = [
    CADD, CSUB, CMUL_INT, INT_CMUL, RMUL, RDIV, RDIV_INT, INT_RDIV, INT_RDIV_INT, SAT_ADD, SAT_SUB, SAT_MUL_INT,
    INT_SAT_MUL, SAT_RMUL, CNEG, ABS, RECIP, NEXT_POW10, RSQRT, FROM_DECIMAL, FROM_INT, FROM_F64, PARSE, PARSE_EXACT,
];

/// Operations of wrapper types, and literals.
pub const WRAPPED: [u32; 13] = [
    W_CADD, W_SAT_ADD, W_CSUB, W_SAT_SUB, W_CMUL, W_SAT_MUL, W_RMUL, W_SAT_RMUL, W_RDIV, W_RDIV_INT, W_INT_RDIV,
    W_INT_RDIV_INT, LITERAL,
];
/// Any operation of the type.
pub fn op(cx: &Cx, ty: Ty) -> u32 {
    if WRAPPED_TYPES.contains(&(ty.bits, ty.prec)) && cx.chance(1, 5) {
        return *cx.pick(&WRAPPED);
    }
    match cx.below(4) {
        0 | 1 => *cx.pick(&BINARY),
        2 => *cx.pick(&UNARY),
        _ => *cx.pick(&OTHER),
    }
}

/// Arguments for `op`, given operands already at hand; `a` and `b` replace them where set.
pub struct Shape {
    pub k: i64,
    pub a: Option<i128>,
    pub b: Option<i128>,
    pub text: Vec<u8>,
}

pub fn shape(cx: &Cx, ty: Ty, op: u32, av: i128, bv: i128) -> Shape {
    let mut s = Shape { k: cx.range(-1, 1), a: None, b: None, text: vec![] };
    let like = match op {
        W_CADD => CADD,
        W_SAT_ADD => SAT_ADD,
        W_CSUB => CSUB,
        W_SAT_SUB => SAT_SUB,
        W_CMUL => CMUL_INT,
        W_SAT_MUL => SAT_MUL_INT,
        W_RMUL => RMUL,
        W_SAT_RMUL => SAT_RMUL,
        W_RDIV => RDIV,
        W_RDIV_INT => RDIV_INT,
        W_INT_RDIV => INT_RDIV,
        o => o,
    };
    match like {
        LITERAL => s.k = cx.below(1000) as i64,
        W_INT_RDIV_INT => {
            s.a = Some(if cx.chance(2, 3) { raw(cx, ty) / ty.coef() } else { int(cx, ty) });
            s.b = Some(int(cx, ty));
        }
        RDIV if ty.bits == 128 && cx.chance(1, 5) => (s.a, s.b) = limbs_div(cx, ty),
        RMUL | SAT_RMUL if cx.chance(2, 3) => s.b = Some(mul_partner(cx, ty, av)),
        RDIV if cx.chance(2, 3) => s.a = Some(div_partner(cx, ty, bv, false)),
        RDIV_INT | INT_RDIV_INT => {
            let d = int(cx, ty);
            s.b = Some(d);
            if cx.chance(2, 3) {
                s.a = Some(div_partner(cx, ty, d, true));
            }
        }
        CMUL_INT | SAT_MUL_INT | INT_CMUL_INT | INT_SAT_MUL_INT => {
            s.b = Some(if cx.chance(1, 3) { edge_factor(cx, ty, av) } else { int(cx, ty) })
        }
        INT_CMUL | INT_SAT_MUL => s.a = Some(if cx.chance(1, 3) { edge_factor(cx, ty, bv) } else { int(cx, ty) }),
        INT_RDIV => {
            let a = if cx.chance(2, 3) { raw(cx, ty) / ty.coef() } else { int(cx, ty) };
            s.a = Some(a);
            let t = target(cx, ty);
            if t != 0 && a != 0 && cx.chance(1, 2) {
                // the divisor that makes the quotient land near a chosen value / tie
                let num = Z::new(a).mul(Z::new(ty.coef())).mul(Z::new(ty.coef())).mul(Z::new(2));
                let den = Z::new(t).mul(Z::new(2)).add(Z::new(cx.chance(1, 2) as i128));
                s.b = ty.fits(num.div_rem(den).0.add(Z::new(cx.range(-1, 1) as i128)));
            }
        }
        CADD | CSUB | SAT_ADD | SAT_SUB | INT_CADD | INT_CSUB | HALF_SUM if cx.chance(1, 2) => {
            // near the edge of the range
            let t = Z::new(*cx.pick(&[ty.max(), ty.min()]));
            let t = if matches!(op, CSUB | SAT_SUB | INT_CSUB) { Z::new(av).sub(t) } else { t.sub(Z::new(av)) };
            s.b = ty.fits(t.add(Z::new(cx.range(-2, 2) as i128)));
        }
        RECIP if cx.chance(1, 4) => s.a = Some(cx.range(-3, 3) as i128),
        RSQRT if cx.chance(1, 2) => {
            // near perfect squares, and the squares of what lies half way between two roots
            let r = fxmodel::isqrt(Z::new(raw(cx, ty)).abs().mul(Z::new(ty.coef())));
            let r2 = r.mul(Z::new(2)).add(Z::new(cx.chance(1, 2) as i128));
            let sq = r2.mul(r2).div_rem(Z::new(4).mul(Z::new(ty.coef()))).0;
            s.a = ty.fits(sq.add(Z::new(cx.range(-1, 1) as i128)));
        }
        RTZ_BY => {
            if cx.chance(1, 2) {
                s.b = Some(10i128.pow(cx.below(ty.prec as u64 + 1) as u32))
            }
        }
        FROM_DECIMAL => {
            s.k = cx.range(-(ty.prec as i64) - 1, 11);
            if cx.chance(1, 2) {
                s.a = Some(ty.to_decimal(raw(cx, ty), s.k.max(-(ty.prec as i64))).0);
            }
        }
        TO_DECIMAL => s.k = *cx.pick(&[0, -(ty.prec as i64), i32::MAX as i64, 1, 10, -1i64.min(ty.prec as i64)]),
        FROM_INT => {
            s.k = cx.range(0, 11);
            s.b = Some(if cx.chance(1, 3) {
                cx.u128() as i128
            } else {
                let v = (raw(cx, ty) / ty.coef()).wrapping_add(cx.range(-1, 1) as i128);
                if cx.chance(1, 4) { v.wrapping_mul(cx.range(1, 1 << 40) as i128) } else { v }
            });
        }
        FROM_F64 => s.b = Some(float(cx, ty).to_bits() as i128),
        PARSE | PARSE_EXACT => s.text = text(cx, ty).into_bytes(),
        _ => {}
    }
    if op == TO_DECIMAL && s.k < -(ty.prec as i64) {
        s.k = -(ty.prec as i64);
    }
    s
}
