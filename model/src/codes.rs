//! Operation codes and outcomes shared by model, nodes and simulator.
/// Operation codes.
macro_rules! codes {
    ($($name:ident = $v:expr),* $(,)?) => {
        $(pub const $name: u32 = $v;)*
        pub fn op_name(op: u32) -> &'static str { match op { $($v => stringify!($name),)* _ => "?" } }
    };
}
codes! {
    CADD = 0, CSUB = 1, CMUL_INT = 2, INT_CMUL = 3, RMUL = 4, RDIV = 5, RDIV_INT = 6, INT_RDIV = 7,
    INT_RDIV_INT = 8, SAT_ADD = 9, SAT_SUB = 10, SAT_MUL_INT = 11, INT_SAT_MUL = 12, SAT_RMUL = 13,
    CNEG = 14, ABS = 15, RECIP = 16, HALF_SUM = 17, INTEGRAL = 18, FLOOR = 19, CEIL = 20, ROUND = 21,
    RTZ_BY = 22, NEXT_POW10 = 23, RSQRT = 24, FROM_DECIMAL = 25, TO_DECIMAL = 26, FROM_INT = 27,
    TO_F64 = 28, FROM_F64 = 29, CMP = 30, SIGNUM = 31, CONSTS = 32, PARSE = 33, PARSE_EXACT = 34,
    DISPLAY = 35, DEBUG = 36, INT_CADD = 37, INT_CSUB = 38, INT_CMUL_INT = 39, INT_SAT_ADD = 40,
    INT_SAT_SUB = 41, INT_SAT_MUL_INT = 42, W_CADD = 43, W_SAT_ADD = 44, W_CSUB = 45, W_SAT_SUB = 46, W_CMUL = 47, W_SAT_MUL = 48, W_RMUL = 49,
    ENCODE = 50, DECODE = 51,
    SER = 60, DE = 61, SCALE_READ = 62, ERR_TEXT = 63, SINK = 64,
    W_SAT_RMUL = 70, W_RDIV = 71, W_RDIV_INT = 72, W_INT_RDIV = 73, W_INT_RDIV_INT = 74, LITERAL = 75,
}

pub const OK: u32 = 0;
pub const OVERFLOW: u32 = 1;
pub const DIV_ZERO: u32 = 2;
pub const DOMAIN: u32 = 3;
pub const CONVERT: u32 = 4;
/// The library panicked.
pub const PANIC: u32 = 100;
/// Two ways to the same result disagree.
pub const DIFFER: u32 = 102;
/// This build has no such type or operation.
pub const UNSUPPORTED: u32 = 101;

/// Outcome of a call: a status, one number, an auxiliary number and bytes.
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Out {
    pub status: u32,
    pub v: i128,
    pub w: i64,
    pub bytes: Vec<u8>,
}


/// Types with wrapper types and literals.
pub const WRAPPED_TYPES: [(u32, u32); 6] = [(16, 2), (32, 4), (64, 9), (64, 0), (128, 18), (128, 38)];
#[allow(non_upper_case_globals)]
mod lit {
    macro_rules! table {
        ($f:literal $m:ident $int:ident $bits:literal $prec:literal $p:ident: $($l:literal)*) => {
            pub(crate) const $m: &[&str] = &[$(stringify!($l)),*];
        };
    }
    include!("literals.rs");
}
/// The literals of a type, as written in source.
pub fn literals(bits: u32, prec: u32) -> &'static [&'static str] {
    match (bits, prec) {
        (16, 2) => lit::w16,
        (32, 4) => lit::w32,
        (64, 9) => lit::w64,
        (64, 0) => lit::w64z,
        (128, 18) => lit::w128,
        (128, 38) => lit::w128x,
        _ => &[],
    }
}
