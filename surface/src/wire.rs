//! Wire forms. `k` selects the form.
use crate::ops::Prec;
use crate::*;
use bincode::Options;
use fixnum::{typenum::*, FixedPoint};
use parity_scale_codec::{Compact, Decode, Encode};
use std::fmt::Write as _;

pub const SCALE: i64 = 0;
pub const SCALE_COMPACT: i64 = 1;
pub const SCALE_OPTION: i64 = 2;
pub const TEXT: i64 = 3;
pub const JSON: i64 = 4;
pub const JSON_REPR: i64 = 5;
pub const JSON_STR: i64 = 6;
pub const JSON_FLOAT: i64 = 7;
pub const JSON_REPR_OPTION: i64 = 8;
pub const JSON_STR_OPTION: i64 = 9;
pub const JSON_FLOAT_OPTION: i64 = 10;
pub const BIN: i64 = 11;
pub const BIN_STR: i64 = 12;
pub const BIN_FLOAT: i64 = 13;
pub const BIN_REPR_OPTION: i64 = 14;
pub const BIN_STR_OPTION: i64 = 15;
pub const BIN_FLOAT_OPTION: i64 = 16;
/// JSON through an owned document tree.
pub const JSON_VALUE: i64 = 17;
pub const FORMS: i64 = 18;

pub fn form_name(k: i64) -> &'static str {
    [
        "scale", "scale-compact", "scale-option", "text", "json", "json-repr", "json-str", "json-float",
        "json-repr-option", "json-str-option", "json-float-option", "bincode", "bincode-str",
        "bincode-float", "bincode-repr-option", "bincode-str-option", "bincode-float-option", "json-tree",
    ][k as usize]
}

fn bytes(b: Vec<u8>) -> Out {
    Out { status: OK, bytes: b, ..Out::default() }
}
fn fail(status: u32) -> Out {
    Out { status, ..Out::default() }
}
fn opts() -> impl Options {
    bincode::options().with_fixint_encoding().allow_trailing_bytes().with_limit(1 << 16)
}

macro_rules! layout {
    ($modname:ident, $int:ident) => {
        pub(crate) mod $modname {
            use super::*;
            type F<P> = FixedPoint<$int, P>;

            fn enc<P: Prec>(a: F<P>, some: bool, k: i64) -> Out {
                let opt = if some { Some(a) } else { None };
                let mut buf: Vec<u8> = vec![];
                macro_rules! json { ($m:ident, $v:expr) => {{
                    let mut s = serde_json::Serializer::new(&mut buf);
                    fixnum::serde::$m::serialize($v, &mut s).map_err(|_| ())
                }}; }
                macro_rules! bin { ($m:ident, $v:expr) => {{
                    let mut s = bincode::Serializer::new(&mut buf, opts());
                    fixnum::serde::$m::serialize($v, &mut s).map_err(|_| ())
                }}; }
                let r: Result<(), ()> = match k {
                    SCALE => { buf = a.encode(); Ok(()) }
                    SCALE_COMPACT => { buf = Compact(a).encode(); Ok(()) }
                    SCALE_OPTION => { buf = opt.encode(); Ok(()) }
                    TEXT => { let mut s = String::new(); let r = write!(s, "{}", a); buf = s.into_bytes(); r.map_err(|_| ()) }
                    JSON => serde_json::to_writer(&mut buf, &a).map_err(|_| ()),
                    JSON_VALUE => match serde_json::to_value(&a) { Ok(v) => { buf = v.to_string().into_bytes(); Ok(()) } Err(_) => Err(()) },
                    JSON_REPR => json!(repr, &a),
                    JSON_STR => json!(str, &a),
                    JSON_FLOAT => json!(float, &a),
                    JSON_REPR_OPTION => json!(repr_option, &opt),
                    JSON_STR_OPTION => json!(str_option, &opt),
                    JSON_FLOAT_OPTION => json!(float_option, &opt),
                    BIN => opts().serialize_into(&mut buf, &a).map_err(|_| ()),
                    BIN_STR => bin!(str, &a),
                    BIN_FLOAT => bin!(float, &a),
                    BIN_REPR_OPTION => bin!(repr_option, &opt),
                    BIN_STR_OPTION => bin!(str_option, &opt),
                    BIN_FLOAT_OPTION => bin!(float_option, &opt),
                    _ => return fail(UNSUPPORTED),
                };
                match r { Ok(()) => bytes(buf), Err(()) => fail(CONVERT) }
            }

            fn dec<P: Prec>(t: &[u8], k: i64) -> Out {
                let one = |r: Option<F<P>>, used: usize| match r {
                    Some(x) => Out { status: OK, v: x.into_bits() as i128, w: used as i64, bytes: vec![1] },
                    None => fail(CONVERT),
                };
                let many = |r: Option<Option<F<P>>>, used: usize| match r {
                    Some(Some(x)) => Out { status: OK, v: x.into_bits() as i128, w: used as i64, bytes: vec![1] },
                    Some(None) => Out { status: OK, v: 0, w: used as i64, bytes: vec![0] },
                    None => fail(CONVERT),
                };
                macro_rules! json { ($m:ident) => {{
                    let mut d = serde_json::Deserializer::from_slice(t);
                    let r = fixnum::serde::$m::deserialize(&mut d).ok();
                    if d.end().is_ok() { r } else { None }
                }}; }
                macro_rules! bin { ($m:ident) => {{
                    let mut c = std::io::Cursor::new(t);
                    let r = {
                        let mut d = bincode::Deserializer::with_reader(&mut c, opts());
                        fixnum::serde::$m::deserialize(&mut d).ok()
                    };
                    (r, c.position() as usize)
                }}; }
                let mut cur = t;
                match k {
                    SCALE => { let r = F::<P>::decode(&mut cur).ok(); one(r, t.len() - cur.len()) }
                    SCALE_COMPACT => { let r = Compact::<F<P>>::decode(&mut cur).ok().map(|c| F::<P>::from(c)); one(r, t.len() - cur.len()) }
                    SCALE_OPTION => { let r = Option::<F<P>>::decode(&mut cur).ok(); many(r, t.len() - cur.len()) }
                    TEXT => one(std::str::from_utf8(t).ok().and_then(|s| s.parse().ok()), 0),
                    JSON => one(serde_json::from_slice(t).ok(), 0),
                    JSON_VALUE => one(serde_json::from_slice::<serde_json::Value>(t).ok().and_then(|v| serde_json::from_value(v).ok()), 0),
                    JSON_REPR => one(json!(repr), 0),
                    JSON_STR => one(json!(str), 0),
                    JSON_FLOAT => one(json!(float), 0),
                    JSON_REPR_OPTION => many(json!(repr_option), 0),
                    JSON_STR_OPTION => many(json!(str_option), 0),
                    JSON_FLOAT_OPTION => many(json!(float_option), 0),
                    BIN => { let mut c = std::io::Cursor::new(t); let r = opts().deserialize_from(&mut c).ok(); one(r, c.position() as usize) }
                    BIN_STR => { let (r, u) = bin!(str); one(r, u) }
                    BIN_FLOAT => { let (r, u) = bin!(float); one(r, u) }
                    BIN_REPR_OPTION => { let (r, u) = bin!(repr_option); many(r, u) }
                    BIN_STR_OPTION => { let (r, u) = bin!(str_option); many(r, u) }
                    BIN_FLOAT_OPTION => { let (r, u) = bin!(float_option); many(r, u) }
                    _ => fail(UNSUPPORTED),
                }
            }

            pub(crate) fn run<P: Prec>(x: &Args<'_>) -> Out {
                if x.op == ENCODE {
                    enc::<P>(F::<P>::from_bits(x.a as $int), x.b != 0, x.k)
                } else {
                    dec::<P>(x.text, x.k)
                }
            }
        }
    };
}
#[cfg(feature = "i16")]
layout!(l16, i16);
#[cfg(feature = "i32")]
layout!(l32, i32);
#[cfg(feature = "i64")]
layout!(l64, i64);
#[cfg(feature = "i128")]
layout!(l128, i128);

/// Types for which wire forms are offered.
pub const TYPES: &[(u32, u32)] = &[
    #[cfg(feature = "i16")] (16, 0),
    #[cfg(feature = "i16")] (16, 2),
    #[cfg(feature = "i16")] (16, 4),
    #[cfg(feature = "i32")] (32, 0),
    #[cfg(feature = "i32")] (32, 2),
    #[cfg(feature = "i32")] (32, 4),
    #[cfg(feature = "i32")] (32, 9),
    #[cfg(feature = "i64")] (64, 0),
    #[cfg(feature = "i64")] (64, 2),
    #[cfg(feature = "i64")] (64, 6),
    #[cfg(feature = "i64")] (64, 9),
    #[cfg(feature = "i64")] (64, 18),
    #[cfg(feature = "i128")] (128, 0),
    #[cfg(feature = "i128")] (128, 1),
    #[cfg(feature = "i128")] (128, 9),
    #[cfg(feature = "i128")] (128, 18),
    #[cfg(feature = "i128")] (128, 25),
    #[cfg(feature = "i128")] (128, 38),
];

pub(crate) fn dispatch(x: &Args<'_>) -> Out {
    match (x.ty / 64, x.ty % 64) {
        #[cfg(feature = "i16")] (16, 0) => l16::run::<U0>(x),
        #[cfg(feature = "i16")] (16, 2) => l16::run::<U2>(x),
        #[cfg(feature = "i16")] (16, 4) => l16::run::<U4>(x),
        #[cfg(feature = "i32")] (32, 0) => l32::run::<U0>(x),
        #[cfg(feature = "i32")] (32, 2) => l32::run::<U2>(x),
        #[cfg(feature = "i32")] (32, 4) => l32::run::<U4>(x),
        #[cfg(feature = "i32")] (32, 9) => l32::run::<U9>(x),
        #[cfg(feature = "i64")] (64, 0) => l64::run::<U0>(x),
        #[cfg(feature = "i64")] (64, 2) => l64::run::<U2>(x),
        #[cfg(feature = "i64")] (64, 6) => l64::run::<U6>(x),
        #[cfg(feature = "i64")] (64, 9) => l64::run::<U9>(x),
        #[cfg(feature = "i64")] (64, 18) => l64::run::<U18>(x),
        #[cfg(feature = "i128")] (128, 0) => l128::run::<U0>(x),
        #[cfg(feature = "i128")] (128, 1) => l128::run::<U1>(x),
        #[cfg(feature = "i128")] (128, 9) => l128::run::<U9>(x),
        #[cfg(feature = "i128")] (128, 18) => l128::run::<U18>(x),
        #[cfg(feature = "i128")] (128, 25) => l128::run::<U25>(x),
        #[cfg(feature = "i128")] (128, 38) => l128::run::<U38>(x),
        _ => fail(UNSUPPORTED),
    }
}
