//! Arithmetic and conversions.
use crate::*;
use fixnum::{ops::*, typenum::*, ArithmeticError, ConvertError, FixedPoint};
use std::convert::TryFrom;
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};

pub(crate) fn mode(k: i64) -> RoundMode {
    match k {
        -1 => RoundMode::Floor,
        1 => RoundMode::Ceil,
        _ => RoundMode::Nearest,
    }
}
pub(crate) fn ok(v: i128) -> Out {
    Out { status: OK, v, ..Out::default() }
}
pub(crate) fn fail(status: u32) -> Out {
    Out { status, ..Out::default() }
}
pub(crate) fn ae(e: ArithmeticError) -> Out {
    fail(match e {
        ArithmeticError::Overflow => OVERFLOW,
        ArithmeticError::DivisionByZero => DIV_ZERO,
        ArithmeticError::DomainViolation => DOMAIN,
        _ => CONVERT,
    })
}

pub(crate) trait Prec: fixnum::Precision + Copy + std::cmp::Ord + Hash + Default {}
impl<T: fixnum::Precision + Copy + std::cmp::Ord + Hash + Default> Prec for T {}

pub(crate) struct Cap<'a>(pub &'a mut Vec<u8>);
impl std::fmt::Write for Cap<'_> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0.extend_from_slice(s.as_bytes());
        Ok(())
    }
}

// FNV-1a: a deterministic hasher.
struct Fnv(u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3);
        }
    }
}

macro_rules! layout {
    ($modname:ident, $int:ident) => {
        pub(crate) mod $modname {
            use super::*;
            type F<P> = FixedPoint<$int, P>;
            fn fx<P>(r: Result<F<P>, ArithmeticError>) -> Out {
                match r { Ok(x) => ok(x.into_bits() as i128), Err(e) => ae(e) }
            }
            fn cx<P>(r: Result<F<P>, ConvertError>) -> Out {
                match r { Ok(x) => ok(x.into_bits() as i128), Err(_) => fail(CONVERT) }
            }
            fn ix(r: Result<$int, ArithmeticError>) -> Out {
                match r { Ok(x) => ok(x as i128), Err(e) => ae(e) }
            }
            /// The caller keeps raw operands within the layout.
            pub(crate) fn run<P: Prec>(x: &Args<'_>) -> Out {
                let (ai, bi) = (x.a as $int, x.b as $int);
                let (a, b) = (F::<P>::from_bits(ai), F::<P>::from_bits(bi));
                let m = mode(x.k);
                match x.op {
                    CADD => fx(a.cadd(b)),
                    CSUB => fx(a.csub(b)),
                    CMUL_INT => fx(a.cmul(bi)),
                    INT_CMUL => fx(CheckedMul::cmul(ai, b)),
                    RMUL => fx(a.rmul(b, m)),
                    RDIV => fx(a.rdiv(b, m)),
                    RDIV_INT => fx(RoundingDiv::<$int>::rdiv(a, bi, m)),
                    INT_RDIV => fx(RoundingDiv::<F<P>>::rdiv(ai, b, m)),
                    INT_RDIV_INT => ix(RoundingDiv::<$int>::rdiv(ai, bi, m)),
                    SAT_ADD => ok(CheckedAdd::saturating_add(a, b).into_bits() as i128),
                    SAT_SUB => ok(CheckedSub::saturating_sub(a, b).into_bits() as i128),
                    SAT_MUL_INT => ok(CheckedMul::<$int>::saturating_mul(a, bi).into_bits() as i128),
                    INT_SAT_MUL => ok(CheckedMul::<F<P>>::saturating_mul(ai, b).into_bits() as i128),
                    SAT_RMUL => ok(a.saturating_rmul(b, m).into_bits() as i128),
                    CNEG => fx(a.cneg()),
                    ABS => fx(a.abs()),
                    RECIP => fx(a.recip(m)),
                    HALF_SUM => ok(F::<P>::half_sum(a, b, m).into_bits() as i128),
                    INTEGRAL => ok(a.integral(m) as i128),
                    FLOOR => ok(a.floor().into_bits() as i128),
                    CEIL => ok(a.ceil().into_bits() as i128),
                    ROUND => ok(a.round().into_bits() as i128),
                    RTZ_BY => ok(a.round_towards_zero_by(b).into_bits() as i128),
                    NEXT_POW10 => fx(a.next_power_of_ten()),
                    RSQRT => fx(a.rsqrt(m)),
                    FROM_DECIMAL => cx(F::<P>::from_decimal(ai, x.k as i32)),
                    TO_DECIMAL => {
                        let (man, e) = a.to_decimal(x.k as i32);
                        Out { status: OK, v: man as i128, w: e as i64, bytes: vec![] }
                    }
                    FROM_INT => {
                        let v = x.b;
                        cx(match x.k {
                            0 => F::<P>::try_from(v as i8),
                            1 => F::<P>::try_from(v as u8),
                            2 => F::<P>::try_from(v as i16),
                            3 => F::<P>::try_from(v as u16),
                            4 => F::<P>::try_from(v as i32),
                            5 => F::<P>::try_from(v as u32),
                            6 => F::<P>::try_from(v as i64),
                            7 => F::<P>::try_from(v as u64),
                            8 => F::<P>::try_from(v),
                            9 => F::<P>::try_from(v as u128),
                            10 => F::<P>::try_from(v as isize),
                            _ => F::<P>::try_from(v as usize),
                        })
                    }
                    TO_F64 => ok(f64::from(a).to_bits() as i128),
                    FROM_F64 => cx(F::<P>::try_from(f64::from_bits(x.b as u64))),
                    CMP => {
                        let mut h = Fnv(0xcbf29ce484222325);
                        a.hash(&mut h);
                        let mut g = Fnv(0xcbf29ce484222325);
                        b.hash(&mut g);
                        let o = a.cmp(&b) as i64;
                        let w = (a == b) as i64 | ((a < b) as i64) << 1 | ((a > b) as i64) << 2
                            | ((a == b && h.finish() == g.finish()) as i64) << 3
                            | ((a.partial_cmp(&b).map(|o| o as i64) == Some(o)) as i64) << 4;
                        Out { status: OK, v: o as i128, w, bytes: vec![] }
                    }
                    SIGNUM => ok(a.signum() as i128),
                    CONSTS => {
                        let mut bytes = vec![];
                        for c in [F::<P>::ZERO, F::<P>::ONE, <F<P> as Bounded>::MIN, <F<P> as Bounded>::MAX, F::<P>::EPSILON, F::<P>::default()] {
                            bytes.extend_from_slice(&(*c.as_bits() as i128).to_le_bytes());
                        }
                        Out { status: OK, v: F::<P>::PRECISION as i128, w: 0, bytes }
                    }
                    PARSE => match std::str::from_utf8(x.text) {
                        Ok(s) => cx(s.parse::<F<P>>()),
                        Err(_) => fail(CONVERT),
                    },
                    PARSE_EXACT => match std::str::from_utf8(x.text) {
                        Ok(s) => cx(F::<P>::from_str_exact(s)),
                        Err(_) => fail(CONVERT),
                    },
                    DISPLAY | DEBUG => {
                        let mut o = ok(0);
                        o.bytes = take_scratch();
                        let mut c = Cap(&mut o.bytes);
                        let r = if x.op == DISPLAY { write!(c, "{}", a) } else { write!(c, "{:?}", a) };
                        if r.is_err() { o.status = CONVERT }
                        o
                    }
                    INT_CADD => ix(ai.cadd(bi)),
                    INT_CSUB => ix(ai.csub(bi)),
                    INT_CMUL_INT => ix(CheckedMul::<$int>::cmul(ai, bi)),
                    INT_SAT_ADD => ok(CheckedAdd::saturating_add(ai, bi) as i128),
                    INT_SAT_SUB => ok(CheckedSub::saturating_sub(ai, bi) as i128),
                    INT_SAT_MUL_INT => ok(CheckedMul::<$int>::saturating_mul(ai, bi) as i128),
                    _ => fail(UNSUPPORTED),
                }
            }
        }
    };
}
#[cfg(feature = "i16")]
layout!(l16, i16);
#[cfg(feature = "i32")]
layout!(l32, i32);
#[cfg(feature = "i64")]
layout!(l64, i64);
#[cfg(feature = "i128")]
layout!(l128, i128);

pub const TYPES: &[(u32, u32)] = &[
    #[cfg(feature = "i16")] (16, 0),
    #[cfg(feature = "i16")] (16, 1),
    #[cfg(feature = "i16")] (16, 2),
    #[cfg(feature = "i16")] (16, 3),
    #[cfg(feature = "i16")] (16, 4),
    #[cfg(feature = "i32")] (32, 0),
    #[cfg(feature = "i32")] (32, 1),
    #[cfg(feature = "i32")] (32, 2),
    #[cfg(feature = "i32")] (32, 3),
    #[cfg(feature = "i32")] (32, 4),
    #[cfg(feature = "i32")] (32, 5),
    #[cfg(feature = "i32")] (32, 6),
    #[cfg(feature = "i32")] (32, 7),
    #[cfg(feature = "i32")] (32, 8),
    #[cfg(feature = "i32")] (32, 9),
    #[cfg(feature = "i64")] (64, 0),
    #[cfg(feature = "i64")] (64, 1),
    #[cfg(feature = "i64")] (64, 2),
    #[cfg(feature = "i64")] (64, 3),
    #[cfg(feature = "i64")] (64, 4),
    #[cfg(feature = "i64")] (64, 5),
    #[cfg(feature = "i64")] (64, 6),
    #[cfg(feature = "i64")] (64, 7),
    #[cfg(feature = "i64")] (64, 8),
    #[cfg(feature = "i64")] (64, 9),
    #[cfg(feature = "i64")] (64, 10),
    #[cfg(feature = "i64")] (64, 11),
    #[cfg(feature = "i64")] (64, 12),
    #[cfg(feature = "i64")] (64, 13),
    #[cfg(feature = "i64")] (64, 14),
    #[cfg(feature = "i64")] (64, 15),
    #[cfg(feature = "i64")] (64, 16),
    #[cfg(feature = "i64")] (64, 17),
    #[cfg(feature = "i64")] (64, 18),
    #[cfg(feature = "i128")] (128, 0),
    #[cfg(feature = "i128")] (128, 1),
    #[cfg(feature = "i128")] (128, 2),
    #[cfg(feature = "i128")] (128, 3),
    #[cfg(feature = "i128")] (128, 4),
    #[cfg(feature = "i128")] (128, 5),
    #[cfg(feature = "i128")] (128, 6),
    #[cfg(feature = "i128")] (128, 7),
    #[cfg(feature = "i128")] (128, 8),
    #[cfg(feature = "i128")] (128, 9),
    #[cfg(feature = "i128")] (128, 10),
    #[cfg(feature = "i128")] (128, 11),
    #[cfg(feature = "i128")] (128, 12),
    #[cfg(feature = "i128")] (128, 13),
    #[cfg(feature = "i128")] (128, 14),
    #[cfg(feature = "i128")] (128, 15),
    #[cfg(feature = "i128")] (128, 16),
    #[cfg(feature = "i128")] (128, 17),
    #[cfg(feature = "i128")] (128, 18),
    #[cfg(feature = "i128")] (128, 19),
    #[cfg(feature = "i128")] (128, 20),
    #[cfg(feature = "i128")] (128, 21),
    #[cfg(feature = "i128")] (128, 22),
    #[cfg(feature = "i128")] (128, 23),
    #[cfg(feature = "i128")] (128, 24),
    #[cfg(feature = "i128")] (128, 25),
    #[cfg(feature = "i128")] (128, 26),
    #[cfg(feature = "i128")] (128, 27),
    #[cfg(feature = "i128")] (128, 28),
    #[cfg(feature = "i128")] (128, 29),
    #[cfg(feature = "i128")] (128, 30),
    #[cfg(feature = "i128")] (128, 31),
    #[cfg(feature = "i128")] (128, 32),
    #[cfg(feature = "i128")] (128, 33),
    #[cfg(feature = "i128")] (128, 34),
    #[cfg(feature = "i128")] (128, 35),
    #[cfg(feature = "i128")] (128, 36),
    #[cfg(feature = "i128")] (128, 37),
    #[cfg(feature = "i128")] (128, 38),
];

pub(crate) fn dispatch(x: &Args<'_>) -> Out {
    if x.op == ENCODE || x.op == DECODE {
        return wire::dispatch(x);
    }
    if (SER..=SINK).contains(&x.op) {
        return bare::dispatch(x);
    }
    if (W_CADD..=W_RMUL).contains(&x.op) || (W_SAT_RMUL..=LITERAL).contains(&x.op) {
        return wrap::dispatch(x);
    }
    match (x.ty / 64, x.ty % 64) {
        #[cfg(feature = "i16")] (16, 0) => l16::run::<U0>(x),
        #[cfg(feature = "i16")] (16, 1) => l16::run::<U1>(x),
        #[cfg(feature = "i16")] (16, 2) => l16::run::<U2>(x),
        #[cfg(feature = "i16")] (16, 3) => l16::run::<U3>(x),
        #[cfg(feature = "i16")] (16, 4) => l16::run::<U4>(x),
        #[cfg(feature = "i32")] (32, 0) => l32::run::<U0>(x),
        #[cfg(feature = "i32")] (32, 1) => l32::run::<U1>(x),
        #[cfg(feature = "i32")] (32, 2) => l32::run::<U2>(x),
        #[cfg(feature = "i32")] (32, 3) => l32::run::<U3>(x),
        #[cfg(feature = "i32")] (32, 4) => l32::run::<U4>(x),
        #[cfg(feature = "i32")] (32, 5) => l32::run::<U5>(x),
        #[cfg(feature = "i32")] (32, 6) => l32::run::<U6>(x),
        #[cfg(feature = "i32")] (32, 7) => l32::run::<U7>(x),
        #[cfg(feature = "i32")] (32, 8) => l32::run::<U8>(x),
        #[cfg(feature = "i32")] (32, 9) => l32::run::<U9>(x),
        #[cfg(feature = "i64")] (64, 0) => l64::run::<U0>(x),
        #[cfg(feature = "i64")] (64, 1) => l64::run::<U1>(x),
        #[cfg(feature = "i64")] (64, 2) => l64::run::<U2>(x),
        #[cfg(feature = "i64")] (64, 3) => l64::run::<U3>(x),
        #[cfg(feature = "i64")] (64, 4) => l64::run::<U4>(x),
        #[cfg(feature = "i64")] (64, 5) => l64::run::<U5>(x),
        #[cfg(feature = "i64")] (64, 6) => l64::run::<U6>(x),
        #[cfg(feature = "i64")] (64, 7) => l64::run::<U7>(x),
        #[cfg(feature = "i64")] (64, 8) => l64::run::<U8>(x),
        #[cfg(feature = "i64")] (64, 9) => l64::run::<U9>(x),
        #[cfg(feature = "i64")] (64, 10) => l64::run::<U10>(x),
        #[cfg(feature = "i64")] (64, 11) => l64::run::<U11>(x),
        #[cfg(feature = "i64")] (64, 12) => l64::run::<U12>(x),
        #[cfg(feature = "i64")] (64, 13) => l64::run::<U13>(x),
        #[cfg(feature = "i64")] (64, 14) => l64::run::<U14>(x),
        #[cfg(feature = "i64")] (64, 15) => l64::run::<U15>(x),
        #[cfg(feature = "i64")] (64, 16) => l64::run::<U16>(x),
        #[cfg(feature = "i64")] (64, 17) => l64::run::<U17>(x),
        #[cfg(feature = "i64")] (64, 18) => l64::run::<U18>(x),
        #[cfg(feature = "i128")] (128, 0) => l128::run::<U0>(x),
        #[cfg(feature = "i128")] (128, 1) => l128::run::<U1>(x),
        #[cfg(feature = "i128")] (128, 2) => l128::run::<U2>(x),
        #[cfg(feature = "i128")] (128, 3) => l128::run::<U3>(x),
        #[cfg(feature = "i128")] (128, 4) => l128::run::<U4>(x),
        #[cfg(feature = "i128")] (128, 5) => l128::run::<U5>(x),
        #[cfg(feature = "i128")] (128, 6) => l128::run::<U6>(x),
        #[cfg(feature = "i128")] (128, 7) => l128::run::<U7>(x),
        #[cfg(feature = "i128")] (128, 8) => l128::run::<U8>(x),
        #[cfg(feature = "i128")] (128, 9) => l128::run::<U9>(x),
        #[cfg(feature = "i128")] (128, 10) => l128::run::<U10>(x),
        #[cfg(feature = "i128")] (128, 11) => l128::run::<U11>(x),
        #[cfg(feature = "i128")] (128, 12) => l128::run::<U12>(x),
        #[cfg(feature = "i128")] (128, 13) => l128::run::<U13>(x),
        #[cfg(feature = "i128")] (128, 14) => l128::run::<U14>(x),
        #[cfg(feature = "i128")] (128, 15) => l128::run::<U15>(x),
        #[cfg(feature = "i128")] (128, 16) => l128::run::<U16>(x),
        #[cfg(feature = "i128")] (128, 17) => l128::run::<U17>(x),
        #[cfg(feature = "i128")] (128, 18) => l128::run::<U18>(x),
        #[cfg(feature = "i128")] (128, 19) => l128::run::<U19>(x),
        #[cfg(feature = "i128")] (128, 20) => l128::run::<U20>(x),
        #[cfg(feature = "i128")] (128, 21) => l128::run::<U21>(x),
        #[cfg(feature = "i128")] (128, 22) => l128::run::<U22>(x),
        #[cfg(feature = "i128")] (128, 23) => l128::run::<U23>(x),
        #[cfg(feature = "i128")] (128, 24) => l128::run::<U24>(x),
        #[cfg(feature = "i128")] (128, 25) => l128::run::<U25>(x),
        #[cfg(feature = "i128")] (128, 26) => l128::run::<U26>(x),
        #[cfg(feature = "i128")] (128, 27) => l128::run::<U27>(x),
        #[cfg(feature = "i128")] (128, 28) => l128::run::<U28>(x),
        #[cfg(feature = "i128")] (128, 29) => l128::run::<U29>(x),
        #[cfg(feature = "i128")] (128, 30) => l128::run::<U30>(x),
        #[cfg(feature = "i128")] (128, 31) => l128::run::<U31>(x),
        #[cfg(feature = "i128")] (128, 32) => l128::run::<U32>(x),
        #[cfg(feature = "i128")] (128, 33) => l128::run::<U33>(x),
        #[cfg(feature = "i128")] (128, 34) => l128::run::<U34>(x),
        #[cfg(feature = "i128")] (128, 35) => l128::run::<U35>(x),
        #[cfg(feature = "i128")] (128, 36) => l128::run::<U36>(x),
        #[cfg(feature = "i128")] (128, 37) => l128::run::<U37>(x),
        #[cfg(feature = "i128")] (128, 38) => l128::run::<U38>(x),
        _ => fail(UNSUPPORTED),
    }
}
