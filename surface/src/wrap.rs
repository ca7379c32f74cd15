//! Wrapper types declared with `impl_op!`, and amounts written as literals in source.
use crate::ops::{ae, fail, mode, ok};
use crate::*;
use fixnum::ops::Zero;
use fixnum::{fixnum, fixnum_const, impl_op, ops::*, typenum::*, ArithmeticError, FixedPoint};

macro_rules! table {
    ($feature:literal $name:ident $int:ident $bits:literal $prec:literal $p:ident: $($l:literal)*) => {
        #[cfg(feature = $feature)]
        mod $name {
            use super::*;
            type F = FixedPoint<$int, $p>;
            #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
            struct Money(F);
            #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
            struct Rate(F);
            #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
            struct Count($int);
            struct Tiny(i8);
            impl From<F> for Money {
                fn from(f: F) -> Self {
                    Money(f)
                }
            }
            impl Zero for Money {
                const ZERO: Self = Money(F::ZERO);
            }
            impl Zero for Rate {
                const ZERO: Self = Rate(F::ZERO);
            }
            impl Zero for Count {
                const ZERO: Self = Count(0);
            }
            impl Bounded for Money {
                const MIN: Self = Money(<F as Bounded>::MIN);
                const MAX: Self = Money(<F as Bounded>::MAX);
            }
            impl_op!(Money [cadd] Money = Money);
            impl_op!(Money [csub] Money = Money);
            impl_op!(Money [cmul] Count = Money);
            impl_op!(Count [cmul] Money = Money);
            impl_op!(Money [cmul] Tiny = Money);
            impl_op!(Money [rmul] Rate = Money);
            impl_op!(Money [rdiv] Money = Rate);
            impl_op!(Money [rdiv] Count = Money);
            impl_op!(Count [rdiv] Money = Rate);
            impl_op!(Count [rdiv] Count = Rate);

            /// Not by `impl_op!` but by hand: what is not written comes from the traits.
            #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
            struct Coin(F);
            impl Zero for Coin {
                const ZERO: Self = Coin(F::ZERO);
            }
            impl Bounded for Coin {
                const MIN: Self = Coin(<F as Bounded>::MIN);
                const MAX: Self = Coin(<F as Bounded>::MAX);
            }
            impl CheckedAdd for Coin {
                type Output = Coin;
                type Error = ArithmeticError;
                fn cadd(self, rhs: Coin) -> Result<Coin, ArithmeticError> {
                    self.0.cadd(rhs.0).map(Coin)
                }
            }
            impl CheckedSub for Coin {
                type Output = Coin;
                type Error = ArithmeticError;
                fn csub(self, rhs: Coin) -> Result<Coin, ArithmeticError> {
                    self.0.csub(rhs.0).map(Coin)
                }
            }
            impl CheckedMul<Count> for Coin {
                type Output = Coin;
                type Error = ArithmeticError;
                fn cmul(self, rhs: Count) -> Result<Coin, ArithmeticError> {
                    self.0.cmul(rhs.0).map(Coin)
                }
            }
            impl RoundingMul<Rate> for Coin {
                type Output = Coin;
                type Error = ArithmeticError;
                fn rmul(self, rhs: Rate, mode: RoundMode) -> Result<Coin, ArithmeticError> {
                    self.0.rmul(rhs.0, mode).map(Coin)
                }
            }
            fn same(w: Money, c: Coin) -> Out {
                if w.0 == c.0 {
                    ok(w.0.into_bits() as i128)
                } else {
                    fail(fxmodel::codes::DIFFER)
                }
            }

            fn money(r: Result<Money, ArithmeticError>) -> Out {
                match r {
                    Ok(x) => ok(x.0.into_bits() as i128),
                    Err(e) => ae(e),
                }
            }
            fn rate(r: Result<Rate, ArithmeticError>) -> Out {
                money(r.map(|x| Money(x.0)))
            }
            pub(super) fn run(x: &Args<'_>) -> Out {
                let (ai, bi) = (x.a as $int, x.b as $int);
                let (a, b) = (Money(F::from_bits(ai)), Money(F::from_bits(bi)));
                let m = mode(x.k);
                match x.op {
                    W_CADD => money(a.cadd(b)),
                    W_SAT_ADD => same(a.saturating_add(b), Coin(a.0).saturating_add(Coin(b.0))),
                    W_CSUB => money(a.csub(b)),
                    W_SAT_SUB => same(a.saturating_sub(b), Coin(a.0).saturating_sub(Coin(b.0))),
                    W_CMUL => money(match x.k {
                        -1 => a.cmul(Tiny(x.b as i8)),
                        0 => a.cmul(Count(bi)),
                        _ => Count(bi).cmul(a),
                    }),
                    W_SAT_MUL => same(
                        if x.k < 0 { Count(bi).saturating_mul(a) } else { a.saturating_mul(Count(bi)) },
                        Coin(a.0).saturating_mul(Count(bi)),
                    ),
                    W_RMUL => money(a.rmul(Rate(b.0), m)),
                    W_SAT_RMUL => same(a.saturating_rmul(Rate(b.0), m), Coin(a.0).saturating_rmul(Rate(b.0), m)),
                    W_RDIV => rate(a.rdiv(b, m)),
                    W_RDIV_INT => money(a.rdiv(Count(bi), m)),
                    W_INT_RDIV => rate(Count(ai).rdiv(b, m)),
                    W_INT_RDIV_INT => rate(Count(ai).rdiv(Count(bi), m)),
                    LITERAL => literal(x.k as usize),
                    _ => fail(UNSUPPORTED),
                }
            }
            fn literal(i: usize) -> Out {
                const ALL: &[F] = &[$(fixnum_const!($l, $prec)),*];
                let into: [Money; ALL.len()] = [$(fixnum!($l, $prec)),*];
                let i = i % ALL.len();
                if into[i].0 == ALL[i] { ok(ALL[i].into_bits() as i128) } else { fail(CONVERT) }
            }
        }
    };
}
include!("../../model/src/literals.rs");

pub(crate) fn dispatch(x: &Args<'_>) -> Out {
    match (x.ty / 64, x.ty % 64) {
        #[cfg(feature = "i16")] (16, 2) => w16::run(x),
        #[cfg(feature = "i32")] (32, 4) => w32::run(x),
        #[cfg(feature = "i64")] (64, 9) => w64::run(x),
        #[cfg(feature = "i64")] (64, 0) => w64z::run(x),
        #[cfg(feature = "i128")] (128, 18) => w128::run(x),
        #[cfg(feature = "i128")] (128, 38) => w128x::run(x),
        _ => fail(UNSUPPORTED),
    }
}
