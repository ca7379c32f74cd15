//! What one operation must answer.
use crate::codes::*;
use crate::{Err, Mode, Ty, Z, R};

#[derive(Clone, Debug)]
pub enum Expect {
    /// Exactly this.
    Is(Out),
    /// Any answer that the given law accepts; the same in every build.
    ToF64(i128),
    FromF64(f64),
    /// Any answer, the same in every build, but no panic.
    Agree,
    /// Any error.
    SomeError,
    /// Outside the documented domain: do not ask.
    Undefined,
}

pub fn status(e: Err) -> u32 {
    match e {
        Err::Overflow => OVERFLOW,
        Err::DivisionByZero => DIV_ZERO,
        Err::Domain => DOMAIN,
        Err::Convert => CONVERT,
    }
}
fn res(r: R) -> Expect {
    Expect::Is(match r {
        Ok(v) => Out { status: OK, v, ..Out::default() },
        Result::Err(e) => Out { status: status(e), ..Out::default() },
    })
}
fn val(v: i128) -> Expect {
    res(Ok(v))
}

/// Range of the integer kinds FROM_INT distinguishes: (bits, signed).
pub const INT_KINDS: [(u32, bool); 12] = [
    (8, true), (8, false), (16, true), (16, false), (32, true), (32, false), (64, true), (64, false),
    (128, true), (128, false), (64, true), (64, false),
];
/// The value of raw `b` seen as integer kind `k`.
pub fn int_of_kind(k: i64, b: i128) -> Z {
    let (bits, signed) = INT_KINDS[k as usize];
    if bits == 128 {
        return if signed { Z::new(b) } else { Z::from_u128(b as u128) };
    }
    let m = b & ((1i128 << bits) - 1);
    Z::new(if signed && m >> (bits - 1) != 0 { m - (1i128 << bits) } else { m })
}

pub fn expect(ty: Ty, op: u32, k: i64, a: i128, b: i128, text: &[u8]) -> Expect {
    let m = || Mode::from_i(k);
    match op {
        CADD | INT_CADD => res(ty.cadd(a, b)),
        CSUB | INT_CSUB => res(ty.csub(a, b)),
        CMUL_INT | INT_CMUL | INT_CMUL_INT => res(ty.cmul_int(a, b)),
        RMUL => res(ty.rmul(a, b, m())),
        RDIV => res(ty.rdiv(a, b, m())),
        RDIV_INT | INT_RDIV_INT => res(ty.rdiv_int(a, b, m())),
        INT_RDIV => match ty.int_rdiv(a, b, m()) {
            Some(r) => res(r),
            None => Expect::SomeError,
        },
        SAT_ADD | INT_SAT_ADD => val(ty.sat_add(a, b)),
        SAT_SUB | INT_SAT_SUB => val(ty.sat_sub(a, b)),
        SAT_MUL_INT | INT_SAT_MUL | INT_SAT_MUL_INT => val(ty.sat_mul(a, b)),
        SAT_RMUL => val(ty.sat_rmul(a, b, m())),
        CNEG => res(ty.cneg(a)),
        ABS => res(ty.abs(a)),
        RECIP => res(ty.rdiv(ty.coef(), a, m())),
        HALF_SUM => val(ty.half_sum(a, b, m())),
        INTEGRAL => val(ty.integral(a, m())),
        FLOOR | CEIL | ROUND => {
            let m = match op {
                FLOOR => Mode::Floor,
                CEIL => Mode::Ceil,
                _ => Mode::Nearest,
            };
            ty.to_integral(a, m).map_or(Expect::Undefined, val)
        }
        RTZ_BY => val(ty.round_towards_zero_by(a, b)),
        NEXT_POW10 => ty.next_power_of_ten(a).map_or(Expect::Agree, res),
        RSQRT => res(ty.rsqrt(a, m())),
        FROM_DECIMAL => res(ty.from_decimal(a, k)),
        TO_DECIMAL => {
            if k < -(ty.prec as i64) {
                return Expect::Undefined;
            }
            let (v, w) = ty.to_decimal(a, k);
            Expect::Is(Out { status: OK, v, w, bytes: vec![] })
        }
        FROM_INT => res(ty.from_int(int_of_kind(k, b))),
        TO_F64 => Expect::ToF64(a),
        FROM_F64 => Expect::FromF64(f64::from_bits(b as u64)),
        CMP => {
            let o = a.cmp(&b) as i64;
            // Equal hashes are only required of equal amounts; the bit is masked by the caller.
            let w = (a == b) as i64 | ((a < b) as i64) << 1 | ((a > b) as i64) << 2 | ((a == b) as i64) << 3 | 1 << 4;
            Expect::Is(Out { status: OK, v: o as i128, w, bytes: vec![] })
        }
        SIGNUM => val(a.signum()),
        CONSTS => {
            let mut bytes = vec![];
            for c in [0, ty.coef(), ty.min(), ty.max(), 1, 0] {
                bytes.extend_from_slice(&c.to_le_bytes());
            }
            Expect::Is(Out { status: OK, v: ty.prec as i128, w: 0, bytes })
        }
        PARSE | PARSE_EXACT => res(match std::str::from_utf8(text) {
            Ok(s) => ty.parse(s, op == PARSE_EXACT),
            _ => Result::Err(Err::Convert),
        }),
        DISPLAY | DEBUG => Expect::Is(Out { status: OK, v: 0, w: 0, bytes: ty.display(a).into_bytes() }),
        W_CADD..=LITERAL if !WRAPPED_TYPES.contains(&(ty.bits, ty.prec)) => Expect::Undefined,
        W_CADD => res(ty.cadd(a, b)),
        W_SAT_ADD => val(ty.sat_add(a, b)),
        W_CSUB => res(ty.csub(a, b)),
        W_SAT_SUB => val(ty.sat_sub(a, b)),
        W_CMUL => res(ty.cmul_int(a, if k < 0 { int_of_kind(0, b).to_i128().unwrap() } else { b })),
        W_SAT_MUL => val(ty.sat_mul(a, b)),
        W_RMUL => res(ty.rmul(a, b, m())),
        W_SAT_RMUL => val(ty.sat_rmul(a, b, m())),
        W_RDIV => res(ty.rdiv(a, b, m())),
        W_RDIV_INT => res(ty.rdiv_int(a, b, m())),
        W_INT_RDIV | W_INT_RDIV_INT => match ty.from_int(Z::new(a)) {
            Ok(v) if op == W_INT_RDIV => res(ty.rdiv(v, b, m())),
            Ok(v) => res(ty.rdiv_int(v, b, m())),
            Result::Err(_) => res(Result::Err(Err::Overflow)),
        },
        LITERAL => {
            let l = literals(ty.bits, ty.prec);
            res(ty.parse(l[k as usize % l.len()], true))
        }
        _ => Expect::Undefined,
    }
}

/// Does the answer satisfy the expectation? (`Agree` only needs to be an answer.)
pub fn accepts(ty: Ty, e: &Expect, got: &Out) -> bool {
    match e {
        Expect::Is(o) => o == got,
        Expect::ToF64(a) => got.status == OK && ty.to_f64_ok(*a, f64::from_bits(got.v as u64)),
        Expect::FromF64(f) => match got.status {
            OK => ty.from_f64_ok(*f, Ok(got.v)),
            CONVERT => ty.from_f64_ok(*f, Result::Err(Err::Convert)),
            _ => false,
        },
        Expect::Agree => got.status != PANIC && got.status != UNSUPPORTED,
        Expect::SomeError => got.status != OK && got.status != PANIC && got.status != UNSUPPORTED,
        Expect::Undefined => true,
    }
}
