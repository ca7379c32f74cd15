//! Formats, inputs and sinks that need no memory of their own.
use crate::ops::{Cap, Prec};
use crate::*;
use fixnum::{ops::*, typenum::*, ArithmeticError, FixedPoint};
use parity_scale_codec::{Compact, Decode, Input};
use serde::{de, ser};
use std::convert::TryFrom;
use std::fmt::{self, Write as _};

/// What `k` of SER and DE is made of: module, +8 if human-readable; DE: token, +32 if inside "some".
pub const MODULES: i64 = 7;
pub const HUMAN: i64 = 8;
pub const SOME: i64 = 32;
pub const TOKENS: i64 = 16;

fn fail(status: u32) -> Out {
    Out { status, ..Out::default() }
}
fn empty() -> Out {
    Out { status: OK, bytes: take_scratch(), ..Out::default() }
}

/// An error that keeps the complaint in place.
pub struct Bare {
    text: [u8; 200],
    len: usize,
}
impl Bare {
    fn new() -> Bare {
        Bare { text: [0; 200], len: 0 }
    }
    fn text(&self) -> &[u8] {
        &self.text[..self.len]
    }
}
impl fmt::Write for Bare {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let n = s.len().min(self.text.len() - self.len);
        self.text[self.len..self.len + n].copy_from_slice(&s.as_bytes()[..n]);
        self.len += n;
        Ok(())
    }
}
impl fmt::Debug for Bare {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Bare")
    }
}
impl fmt::Display for Bare {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Bare")
    }
}
impl std::error::Error for Bare {}
impl de::Error for Bare {
    fn custom<T: fmt::Display>(t: T) -> Self {
        let mut b = Bare::new();
        let _ = write!(b, "{}", t);
        b
    }
}
impl ser::Error for Bare {
    fn custom<T: fmt::Display>(t: T) -> Self {
        de::Error::custom(t)
    }
}

/// Takes one value: what it was told goes to `out`. `room`: refuses longer text; negative: refuses all.
struct Ser<'a> {
    out: &'a mut Out,
    human: bool,
    room: i64,
}
impl Ser<'_> {
    fn put(self, w: i64, v: i128, b: &[u8]) -> Result<(), Bare> {
        if self.room < b.len() as i64 {
            return Err(ser::Error::custom("no room"));
        }
        self.out.w += w;
        self.out.v = v;
        self.out.bytes.extend_from_slice(b);
        Ok(())
    }
}
impl ser::Serializer for Ser<'_> {
    type Ok = ();
    type Error = Bare;
    type SerializeSeq = ser::Impossible<(), Bare>;
    type SerializeTuple = ser::Impossible<(), Bare>;
    type SerializeTupleStruct = ser::Impossible<(), Bare>;
    type SerializeTupleVariant = ser::Impossible<(), Bare>;
    type SerializeMap = ser::Impossible<(), Bare>;
    type SerializeStruct = ser::Impossible<(), Bare>;
    type SerializeStructVariant = ser::Impossible<(), Bare>;
    fn is_human_readable(&self) -> bool {
        self.human
    }
    fn serialize_bool(self, v: bool) -> Result<(), Bare> {
        self.put(1, v as i128, b"")
    }
    fn serialize_i8(self, v: i8) -> Result<(), Bare> {
        self.put(2, v as i128, b"")
    }
    fn serialize_i16(self, v: i16) -> Result<(), Bare> {
        self.put(3, v as i128, b"")
    }
    fn serialize_i32(self, v: i32) -> Result<(), Bare> {
        self.put(4, v as i128, b"")
    }
    fn serialize_i64(self, v: i64) -> Result<(), Bare> {
        self.put(5, v as i128, b"")
    }
    fn serialize_i128(self, v: i128) -> Result<(), Bare> {
        self.put(6, v, b"")
    }
    fn serialize_u8(self, v: u8) -> Result<(), Bare> {
        self.put(7, v as i128, b"")
    }
    fn serialize_u16(self, v: u16) -> Result<(), Bare> {
        self.put(8, v as i128, b"")
    }
    fn serialize_u32(self, v: u32) -> Result<(), Bare> {
        self.put(9, v as i128, b"")
    }
    fn serialize_u64(self, v: u64) -> Result<(), Bare> {
        self.put(10, v as i128, b"")
    }
    fn serialize_u128(self, v: u128) -> Result<(), Bare> {
        self.put(11, v as i128, b"")
    }
    fn serialize_f32(self, v: f32) -> Result<(), Bare> {
        self.put(12, v.to_bits() as i128, b"")
    }
    fn serialize_f64(self, v: f64) -> Result<(), Bare> {
        self.put(13, v.to_bits() as i128, b"")
    }
    fn serialize_char(self, v: char) -> Result<(), Bare> {
        self.put(14, v as i128, b"")
    }
    fn serialize_str(self, v: &str) -> Result<(), Bare> {
        self.put(15, 0, v.as_bytes())
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<(), Bare> {
        self.put(16, 0, v)
    }
    fn serialize_none(self) -> Result<(), Bare> {
        self.put(17, 0, b"")
    }
    fn serialize_some<T: ?Sized + ser::Serialize>(self, v: &T) -> Result<(), Bare> {
        self.out.w += 100;
        v.serialize(self)
    }
    fn serialize_unit(self) -> Result<(), Bare> {
        self.put(18, 0, b"")
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<(), Bare> {
        self.put(19, 0, b"")
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<(), Bare> {
        self.put(20, 0, b"")
    }
    fn serialize_newtype_struct<T: ?Sized + ser::Serialize>(self, _: &'static str, v: &T) -> Result<(), Bare> {
        self.out.w += 200;
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + ser::Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<(), Bare> {
        Err(ser::Error::custom("variant"))
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, Bare> {
        Err(ser::Error::custom("sequence"))
    }
    fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, Bare> {
        Err(ser::Error::custom("tuple"))
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, Bare> {
        Err(ser::Error::custom("tuple"))
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, Bare> {
        Err(ser::Error::custom("variant"))
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, Bare> {
        Err(ser::Error::custom("map"))
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, Bare> {
        Err(ser::Error::custom("struct"))
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, Bare> {
        Err(ser::Error::custom("variant"))
    }
    fn collect_str<T: ?Sized + fmt::Display>(self, v: &T) -> Result<(), Bare> {
        struct Count(usize);
        impl fmt::Write for Count {
            fn write_str(&mut self, s: &str) -> fmt::Result {
                self.0 += s.len();
                Ok(())
            }
        }
        let mut c = Count(0);
        if write!(c, "{}", v).is_err() || self.room < c.0 as i64 {
            return Err(ser::Error::custom("no room"));
        }
        self.out.w += 15;
        write!(Cap(&mut self.out.bytes), "{}", v).map_err(ser::Error::custom)
    }
}

/// Hands over one token.
struct De<'a> {
    x: &'a Args<'a>,
    some: bool,
}
impl<'de> De<'de> {
    fn human(&self) -> bool {
        self.x.k & HUMAN != 0
    }
    fn text(&self) -> &'de str {
        std::str::from_utf8(self.x.text).unwrap_or("?")
    }
}
struct Nothing;
impl<'de> de::SeqAccess<'de> for Nothing {
    type Error = Bare;
    fn next_element_seed<T: de::DeserializeSeed<'de>>(&mut self, _: T) -> Result<Option<T::Value>, Bare> {
        Ok(None)
    }
}
impl<'de> de::Deserializer<'de> for De<'de> {
    type Error = Bare;
    fn is_human_readable(&self) -> bool {
        self.human()
    }
    fn deserialize_any<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, Bare> {
        if self.some {
            return v.visit_some(De { some: false, ..self });
        }
        let a = self.x.a;
        match self.x.k / 64 {
            0 => v.visit_borrowed_str(self.text()),
            1 => v.visit_str(self.text()),
            2 => v.visit_bytes(self.x.text),
            3 => v.visit_borrowed_bytes(self.x.text),
            4 => v.visit_i64(a as i64),
            5 => v.visit_u64(a as u64),
            6 => v.visit_i128(a),
            7 => v.visit_u128(a as u128),
            8 => v.visit_f64(f64::from_bits(a as u64)),
            9 => v.visit_none(),
            10 => v.visit_unit(),
            11 => v.visit_bool(a & 1 != 0),
            12 => v.visit_i16(a as i16),
            13 => v.visit_u32(a as u32),
            14 => v.visit_seq(Nothing),
            // the decoder itself fails
            _ => Err(de::Error::custom("broken off")),
        }
    }
    fn deserialize_option<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, Bare> {
        match self.x.k / 64 {
            9 => v.visit_none(),
            10 => v.visit_unit(),
            _ if self.some => v.visit_some(De { some: false, ..self }),
            _ => self.deserialize_any(v),
        }
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf unit unit_struct
        newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}

/// A SCALE input that ends or fails.
struct In<'a> {
    left: &'a [u8],
    fails: bool,
}
impl Input for In<'_> {
    fn remaining_len(&mut self) -> Result<Option<usize>, parity_scale_codec::Error> {
        Ok(None)
    }
    fn read(&mut self, into: &mut [u8]) -> Result<(), parity_scale_codec::Error> {
        if into.len() > self.left.len() {
            return Err(if self.fails { "device failed".into() } else { "end of input".into() });
        }
        let (a, b) = self.left.split_at(into.len());
        into.copy_from_slice(a);
        self.left = b;
        Ok(())
    }
}

/// A sink with little room.
struct Small<'a> {
    b: &'a mut Vec<u8>,
    room: usize,
}
impl fmt::Write for Small<'_> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if s.len() > self.room {
            return Err(fmt::Error);
        }
        self.room -= s.len();
        self.b.extend_from_slice(s.as_bytes());
        Ok(())
    }
}

macro_rules! layout {
    ($modname:ident, $int:ident) => {
        pub(crate) mod $modname {
            use super::*;
            type F<P> = FixedPoint<$int, P>;

            fn ser<P: Prec>(x: &Args<'_>) -> Out {
                let a = F::<P>::from_bits(x.a as $int);
                let opt = if x.b & 1 != 0 { Some(a) } else { None };
                let mut out = empty();
                let s = Ser { out: &mut out, human: x.k & HUMAN != 0, room: (x.b >> 1) as i64 };
                let r = match x.k % 8 {
                    0 => ser::Serialize::serialize(&a, s),
                    1 => fixnum::serde::repr::serialize(&a, s),
                    2 => fixnum::serde::str::serialize(&a, s),
                    3 => fixnum::serde::float::serialize(&a, s),
                    4 => fixnum::serde::repr_option::serialize(&opt, s),
                    5 => fixnum::serde::str_option::serialize(&opt, s),
                    _ => fixnum::serde::float_option::serialize(&opt, s),
                };
                if let Err(e) = r {
                    out.status = CONVERT;
                    out.bytes.clear();
                    out.bytes.extend_from_slice(e.text());
                }
                out
            }

            fn de<P: Prec>(x: &Args<'_>) -> Out {
                let d = De { x, some: x.k & SOME != 0 };
                let some = |r: Result<F<P>, Bare>| r.map(Some);
                let r: Result<Option<F<P>>, Bare> = match x.k % 8 {
                    0 => some(de::Deserialize::deserialize(d)),
                    1 => some(fixnum::serde::repr::deserialize(d)),
                    2 => some(fixnum::serde::str::deserialize(d)),
                    3 => some(fixnum::serde::float::deserialize(d)),
                    4 => fixnum::serde::repr_option::deserialize(d),
                    5 => fixnum::serde::str_option::deserialize(d),
                    _ => fixnum::serde::float_option::deserialize(d),
                };
                let mut out = empty();
                match r {
                    Ok(Some(v)) => out.v = v.into_bits() as i128,
                    Ok(None) => out.w = 1,
                    Err(e) => {
                        out.status = CONVERT;
                        out.bytes.extend_from_slice(e.text());
                    }
                }
                out
            }

            fn scale<P: Prec>(x: &Args<'_>) -> Out {
                let mut i = In { left: x.text, fails: x.b != 0 };
                let r: Result<Option<F<P>>, ()> = match x.k {
                    0 => F::<P>::decode(&mut i).map(Some).map_err(drop),
                    1 => Compact::<F<P>>::decode(&mut i).map(|c| Some(F::<P>::from(c))).map_err(drop),
                    2 => Option::<F<P>>::decode(&mut i).map_err(drop),
                    _ => <(F<P>, Compact<F<P>>)>::decode(&mut i).map(|(a, b)| if i.left.is_empty() { Some(a) } else { Some(b.0) }).map_err(drop),
                };
                let left = i.left.len() as i64;
                match r {
                    Ok(Some(v)) => Out { v: v.into_bits() as i128, w: left, ..Out::default() },
                    Ok(None) => Out { v: 1, w: left + 1000, ..Out::default() },
                    Err(()) => fail(CONVERT),
                }
            }

            /// The complaints of the library, as text, into a small sink.
            fn complaint<P: Prec>(x: &Args<'_>) -> Out {
                let a = F::<P>::from_bits(x.a as $int);
                let mut o = empty();
                let mut s = Small { b: &mut o.bytes, room: x.b as usize };
                let r = match x.k {
                    0 => a.rdiv(F::<P>::ZERO, RoundMode::Floor).err().map(|e: ArithmeticError| write!(s, "{} {:?} {}", e, e, e.as_str())),
                    1 => a.cmul($int::MAX).err().map(|e| write!(s, "{} {:?} {}", e, e, e.as_str())),
                    2 => a.rsqrt(RoundMode::Ceil).err().map(|e| write!(s, "{} {:?} {}", e, e, e.as_str())),
                    3 => std::str::from_utf8(x.text).ok().and_then(|t| t.parse::<F<P>>().err()).map(|e| write!(s, "{} {:?} {}", e, e, e.as_str())),
                    4 => F::<P>::try_from(f64::from_bits(x.a as u64)).err().map(|e| write!(s, "{} {:?} {}", e, e, e.as_str())),
                    5 => F::<P>::try_from(x.a).err().map(|e| write!(s, "{} {:?} {}", e, e, e.as_str())),
                    _ => F::<P>::from_decimal(x.a as $int, 9).err().map(|e| write!(s, "{} {:?} {}", e, e, e.as_str())),
                };
                o.w = match r { None => 0, Some(Ok(())) => 1, Some(Err(_)) => 2 };
                o
            }

            fn sink<P: Prec>(x: &Args<'_>) -> Out {
                let a = F::<P>::from_bits(x.a as $int);
                let mut o = empty();
                let mut s = Small { b: &mut o.bytes, room: x.b as usize };
                let r = match x.k {
                    0 => write!(s, "{}", a),
                    1 => write!(s, "{:?}", a),
                    2 => write!(s, "{:?}", Some(a)),
                    _ => write!(s, "{0} and {0:?}", a),
                };
                if r.is_err() {
                    o.status = CONVERT;
                }
                o
            }

            pub(crate) fn run<P: Prec>(x: &Args<'_>) -> Out {
                match x.op {
                    SER => ser::<P>(x),
                    DE => de::<P>(x),
                    SCALE_READ => scale::<P>(x),
                    ERR_TEXT => complaint::<P>(x),
                    _ => sink::<P>(x),
                }
            }
        }
    };
}
#[cfg(feature = "i16")]
layout!(l16, i16);
#[cfg(feature = "i32")]
layout!(l32, i32);
#[cfg(feature = "i64")]
layout!(l64, i64);
#[cfg(feature = "i128")]
layout!(l128, i128);

pub(crate) fn dispatch(x: &Args<'_>) -> Out {
    match (x.ty / 64, x.ty % 64) {
        #[cfg(feature = "i16")] (16, 0) => l16::run::<U0>(x),
        #[cfg(feature = "i16")] (16, 2) => l16::run::<U2>(x),
        #[cfg(feature = "i16")] (16, 4) => l16::run::<U4>(x),
        #[cfg(feature = "i32")] (32, 0) => l32::run::<U0>(x),
        #[cfg(feature = "i32")] (32, 2) => l32::run::<U2>(x),
        #[cfg(feature = "i32")] (32, 4) => l32::run::<U4>(x),
        #[cfg(feature = "i32")] (32, 9) => l32::run::<U9>(x),
        #[cfg(feature = "i64")] (64, 0) => l64::run::<U0>(x),
        #[cfg(feature = "i64")] (64, 2) => l64::run::<U2>(x),
        #[cfg(feature = "i64")] (64, 6) => l64::run::<U6>(x),
        #[cfg(feature = "i64")] (64, 9) => l64::run::<U9>(x),
        #[cfg(feature = "i64")] (64, 18) => l64::run::<U18>(x),
        #[cfg(feature = "i128")] (128, 0) => l128::run::<U0>(x),
        #[cfg(feature = "i128")] (128, 1) => l128::run::<U1>(x),
        #[cfg(feature = "i128")] (128, 9) => l128::run::<U9>(x),
        #[cfg(feature = "i128")] (128, 18) => l128::run::<U18>(x),
        #[cfg(feature = "i128")] (128, 25) => l128::run::<U25>(x),
        #[cfg(feature = "i128")] (128, 38) => l128::run::<U38>(x),
        _ => fail(UNSUPPORTED),
    }
}
