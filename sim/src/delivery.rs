//! C06: the same document delivered in every way a format, transport or peer can.
use crate::codec::*;
use crate::core::*;
use crate::docs::*;
use crate::gen;
use fxmodel::{Ty, Z};
use serde::de::{self, Deserializer, MapAccess, SeqAccess, Visitor};
use std::collections::BTreeMap;
use std::fmt;

/// What a peer put into a field, whatever the encoding.
#[derive(Clone, Debug, PartialEq)]
pub enum Tk {
    Null,
    Missing,
    Text(String),
    Int(i128),
    Big(u128),
    Float(f64),
    Junk(u8),
    /// bytes that are no text
    Blob(Vec<u8>),
    /// an object with the text under a key
    Tagged(String, String),
}

/// What the field must be read as. `None`: the interface leaves it open.
pub fn want(k: Kind, t: &Tk, human: bool) -> Option<Verdict> {
    let ty = k.ty();
    let fit = |r: fxmodel::R| r.map_or(Verdict::Reject, Verdict::Is);
    if matches!(t, Tk::Null | Tk::Missing) {
        return Some(if k.m.optional() { Verdict::Nothing } else { Verdict::Reject });
    }
    Some(match k.m.base() {
        Module::Default if human => match t {
            Tk::Text(s) => fit(ty.parse(s, false)),
            Tk::Int(v) => fit(ty.from_int(Z::new(*v))),
            Tk::Big(v) => fit(ty.from_int(Z::from_u128(*v))),
            Tk::Float(f) => Verdict::Float(*f),
            Tk::Tagged(key, s) if key == "$value" && cfg!(feature = "xml") => fit(ty.parse(s, false)),
            _ => Verdict::Reject,
        },
        Module::Default | Module::Repr => match t {
            Tk::Int(v) => fit(ty.fits(Z::new(*v)).ok_or(fxmodel::Err::Convert)),
            Tk::Big(v) => fit(ty.fits(Z::from_u128(*v)).ok_or(fxmodel::Err::Convert)),
            _ => Verdict::Reject,
        },
        Module::Str => match t {
            Tk::Text(s) => fit(ty.parse(s, false)),
            _ => Verdict::Reject,
        },
        _ => match t {
            Tk::Float(f) => Verdict::Float(*f),
            Tk::Int(v) if *v >= i64::MIN as i128 && *v <= u64::MAX as i128 => Verdict::Float(*v as f64),
            Tk::Int(_) | Tk::Big(_) => return None,
            _ => Verdict::Reject,
        },
    })
}
pub fn meets(ty: Ty, want: &Verdict, got: &Result<Option<i128>, String>) -> bool {
    match (want, got) {
        (Verdict::Nothing, Ok(None)) => true,
        (Verdict::Is(x), Ok(Some(y))) => x == y,
        (Verdict::Float(f), Ok(Some(y))) => ty.from_f64_ok(*f, Ok(*y)),
        (Verdict::Float(f), Err(_)) => ty.from_f64_ok(*f, Err(fxmodel::Err::Convert)),
        (Verdict::Reject, Err(_)) => true,
        _ => false,
    }
}

pub fn text_of(cx: &Cx, ty: Ty) -> String {
    if cx.chance(1, 2) {
        ty.display(gen::raw(cx, ty))
    } else {
        gen::text(cx, ty)
    }
}
/// A float with few digits, or any.
pub fn float_of(cx: &Cx, ty: Ty) -> f64 {
    if cx.chance(1, 2) {
        let d = cx.below(16) as u32;
        let m = cx.below(10u64.pow(d)) as i64;
        let e = cx.usize(ty.prec.min(18) as usize + 1);
        let t = format!("{}{m}e-{e}", if cx.chance(1, 2) { "-" } else { "" });
        t.parse().unwrap()
    } else {
        let f = gen::float(cx, ty);
        if f.is_finite() {
            f
        } else {
            0.25
        }
    }
}
pub fn int_of(cx: &Cx, ty: Ty, raw: bool) -> i128 {
    match cx.below(8) {
        0 => cx.u128() as i128,
        1 => *cx.pick(&[i64::MAX as i128, i64::MIN as i128, u64::MAX as i128, i128::MAX, i128::MIN, i64::MAX as i128 + 1, u64::MAX as i128 + 1, 255, 256, -128, -129, 65535, 65536, -32769]),
        2 | 3 if !raw => (ty.max() / ty.coef()).saturating_add(cx.range(-2, 2) as i128),
        4 if !raw => (ty.min() / ty.coef()).saturating_add(cx.range(-2, 2) as i128),
        5 => cx.range(-1000, 1000) as i128,
        _ if raw => gen::raw(cx, ty),
        _ => gen::raw(cx, ty) / ty.coef(),
    }
}
pub fn tk(cx: &Cx, k: Kind, human: bool) -> Tk {
    let ty = k.ty();
    if k.m.optional() && cx.chance(1, 5) {
        return if cx.chance(1, 2) { Tk::Null } else { Tk::Missing };
    }
    if cx.chance(1, 25) {
        return match cx.below(8) {
            0 => Tk::Null,
            1 => Tk::Missing,
            2 => Tk::Tagged("$value".into(), text_of(cx, ty)),
            3 => Tk::Tagged("value".into(), text_of(cx, ty)),
            4 => Tk::Text(text_of(cx, ty)),
            n => Tk::Junk(n as u8 - 5),
        };
    }
    match k.m.base() {
        Module::Default if human => match cx.below(6) {
            0 | 1 | 2 => Tk::Text(text_of(cx, ty)),
            3 | 4 => Tk::Int(int_of(cx, ty, false)),
            _ => Tk::Float(float_of(cx, ty)),
        },
        Module::Default | Module::Repr => Tk::Int(int_of(cx, ty, true)),
        Module::Str => Tk::Text(text_of(cx, ty)),
        _ if cx.chance(1, 4) => Tk::Int(int_of(cx, ty, false)),
        _ => Tk::Float(float_of(cx, ty)),
    }
}

// ---------------------------------------------------------------------------------------------
// A decoder that hands over tokens as the run decides.

#[derive(Clone, Debug)]
pub enum Hand {
    Borrowed(String),
    Transient(String),
    Owned(String),
    Bytes(Vec<u8>),
    BorrowedBytes(Vec<u8>),
    ByteBuf(Vec<u8>),
    Char(char),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    I128(i128),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    U128(u128),
    F32(f32),
    F64(f64),
    Bool(bool),
    None,
    Unit,
    Some(Box<Hand>),
    Seq(Vec<Hand>),
    Map(Vec<(String, Hand)>),
}
pub struct HandDe<'a> {
    pub h: &'a Hand,
    pub human: bool,
}
#[derive(Debug)]
pub struct HandErr(pub String);
impl fmt::Display for HandErr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for HandErr {}
impl de::Error for HandErr {
    fn custom<T: fmt::Display>(t: T) -> Self {
        HandErr(t.to_string())
    }
}
impl<'de> Deserializer<'de> for HandDe<'de> {
    type Error = HandErr;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, HandErr> {
        match self.h {
            Hand::Borrowed(s) => v.visit_borrowed_str(s),
            Hand::Transient(s) => {
                // gone right after the call
                let t = s.clone();
                v.visit_str(&t)
            }
            Hand::Owned(s) => v.visit_string(s.clone()),
            Hand::Bytes(b) => {
                let t = b.clone();
                v.visit_bytes(&t)
            }
            Hand::BorrowedBytes(b) => v.visit_borrowed_bytes(b),
            Hand::ByteBuf(b) => v.visit_byte_buf(b.clone()),
            Hand::Char(c) => v.visit_char(*c),
            Hand::I8(x) => v.visit_i8(*x),
            Hand::I16(x) => v.visit_i16(*x),
            Hand::I32(x) => v.visit_i32(*x),
            Hand::I64(x) => v.visit_i64(*x),
            Hand::I128(x) => v.visit_i128(*x),
            Hand::U8(x) => v.visit_u8(*x),
            Hand::U16(x) => v.visit_u16(*x),
            Hand::U32(x) => v.visit_u32(*x),
            Hand::U64(x) => v.visit_u64(*x),
            Hand::U128(x) => v.visit_u128(*x),
            Hand::F32(x) => v.visit_f32(*x),
            Hand::F64(x) => v.visit_f64(*x),
            Hand::Bool(x) => v.visit_bool(*x),
            Hand::None => v.visit_none(),
            Hand::Unit => v.visit_unit(),
            Hand::Some(h) => v.visit_some(HandDe { h, human: self.human }),
            Hand::Seq(x) => v.visit_seq(HandSeq { it: x.iter(), human: self.human }),
            Hand::Map(x) => v.visit_map(HandMap { it: x.iter(), next: None, human: self.human }),
        }
    }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, HandErr> {
        match self.h {
            Hand::None => v.visit_none(),
            Hand::Unit => v.visit_unit(),
            Hand::Some(h) => v.visit_some(HandDe { h, human: self.human }),
            _ => v.visit_some(self),
        }
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, HandErr> {
        v.visit_newtype_struct(self)
    }
    fn is_human_readable(&self) -> bool {
        self.human
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf
        unit unit_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}
struct HandSeq<'a> {
    it: std::slice::Iter<'a, Hand>,
    human: bool,
}
impl<'de> SeqAccess<'de> for HandSeq<'de> {
    type Error = HandErr;
    fn next_element_seed<T: de::DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, HandErr> {
        self.it.next().map(|h| s.deserialize(HandDe { h, human: self.human })).transpose()
    }
}
struct HandMap<'a> {
    it: std::slice::Iter<'a, (String, Hand)>,
    next: Option<&'a Hand>,
    human: bool,
}
impl<'de> MapAccess<'de> for HandMap<'de> {
    type Error = HandErr;
    fn next_key_seed<T: de::DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, HandErr> {
        match self.it.next() {
            Some((k, h)) => {
                self.next = Some(h);
                s.deserialize(de::value::StrDeserializer::new(k)).map(Some)
            }
            None => Ok(None),
        }
    }
    fn next_value_seed<T: de::DeserializeSeed<'de>>(&mut self, s: T) -> Result<T::Value, HandErr> {
        s.deserialize(HandDe { h: self.next.take().expect("harness: value before key"), human: self.human })
    }
}

/// One of the ways a decoder may hand the token over. `Str` forms may also come as bytes.
fn hand(cx: &Cx, k: Kind, t: &Tk, human: bool) -> Hand {
    let h = match t {
        Tk::Null | Tk::Missing => return if cx.chance(1, 2) { Hand::None } else { Hand::Unit },
        Tk::Text(s) => {
            let bytes = k.m.base() == Module::Str && cx.chance(1, 4);
            let mut chars = s.chars();
            match (cx.below(4), chars.next(), chars.next()) {
                (0, Some(c), None) => Hand::Char(c),
                (0, ..) | (1, ..) if bytes => Hand::Bytes(s.clone().into_bytes()),
                (2, ..) if bytes => Hand::BorrowedBytes(s.clone().into_bytes()),
                (3, ..) if bytes => Hand::ByteBuf(s.clone().into_bytes()),
                (0, ..) | (1, ..) => Hand::Borrowed(s.clone()),
                (2, ..) => Hand::Transient(s.clone()),
                _ => Hand::Owned(s.clone()),
            }
        }
        Tk::Int(v) => {
            let v = *v;
            let mut w = vec![];
            macro_rules! width { ($($i:ident $n:ident)*) => { $(if let Ok(x) = $i::try_from(v) { w.push(Hand::$n(x)); })* } }
            width!(i8 I8 i16 I16 i32 I32 i64 I64 u8 U8 u16 U16 u32 U32 u64 U64);
            // serde's own narrower integers and floats take no 128-bit ones
            if w.is_empty() || k.m.base() == Module::Default && human || k.m.base() != Module::Float && k.code / 64 == 128 {
                width!(i128 I128 u128 U128);
            }
            cx.pick(&w).clone()
        }
        Tk::Big(v) => Hand::U128(*v),
        Tk::Float(f) => {
            if (*f as f32) as f64 == *f && cx.chance(1, 2) {
                Hand::F32(*f as f32)
            } else {
                Hand::F64(*f)
            }
        }
        Tk::Blob(b) => match cx.below(3) {
            0 => Hand::Bytes(b.clone()),
            1 => Hand::BorrowedBytes(b.clone()),
            _ => Hand::ByteBuf(b.clone()),
        },
        Tk::Junk(0) => Hand::Bool(true),
        Tk::Junk(1) => Hand::Seq(vec![]),
        Tk::Junk(_) => Hand::Map(vec![]),
        Tk::Tagged(key, s) => Hand::Map(vec![(key.clone(), Hand::Transient(s.clone()))]),
    };
    if k.m.optional() && cx.chance(1, 2) {
        Hand::Some(Box::new(h))
    } else {
        h
    }
}

/// The text, damaged so that it is text no more.
fn blob(cx: &Cx, s: String) -> Vec<u8> {
    let mut b = s.into_bytes();
    let at = cx.usize(b.len() + 1);
    match cx.below(3) {
        0 => b.insert(at, 0x80 | cx.below(0x80) as u8),
        1 if at < b.len() => b[at] |= 0x80,
        _ => b.extend_from_slice(*cx.pick::<&[u8]>(&[&[0xff], &[0xe2, 0x80], &[0xc2], &[0xf0, 0x9f, 0x98], &[0xfe, 0xff], &[0xed, 0xa0, 0x80]])),
    }
    if std::str::from_utf8(&b).is_ok() {
        b.push(0xff);
    }
    b
}

fn by_hand(cx: &Cx) -> Res {
    let k = Kind { code: *cx.pick(TYPES), m: *cx.pick(&MODULES) };
    let human = cx.chance(2, 3);
    let t = tk(cx, k, human);
    // u128 beyond i128
    let t = match t {
        Tk::Int(v) if v < 0 && cx.chance(1, 10) => Tk::Big(v as u128),
        Tk::Text(s) if cx.chance(1, 8) => Tk::Blob(blob(cx, s)),
        t => t,
    };
    let w = want(k, &t, human);
    let mut first: Option<Result<Option<i128>, ()>> = None;
    for _ in 0..2 + cx.usize(3) {
        let h = hand(cx, k, &t, human);
        let what = format!("{} {:?} handed {h:?} (human readable: {human})", k.ty().name(), k.m);
        let got = calm(&what, || de(k.code, k.m, HandDe { h: &h, human }))?.map_err(|e| e.0);
        cx.op();
        cx.fault("delivery-varied");
        cx.event(format!("{what}: {got:?}"));
        let Some(w) = &w else { continue };
        if !meets(k.ty(), w, &got) {
            return viol("handed", format!("{what}: {got:?}, required {w:?}"));
        }
        let plain = got.map_err(|_| ());
        if first.get_or_insert(plain) != &plain {
            return viol("delivery-dependent", format!("{what}: {plain:?}, but {first:?} when handed otherwise"));
        }
    }
    Ok(())
}

/// The same number as text, integer and float means the same amount.
fn same_number(cx: &Cx) -> Res {
    let code = *cx.pick(TYPES);
    let k = Kind { code, m: *cx.pick(&[Module::Default, Module::OptDefault]) };
    let ty = k.ty();
    // a decimal of at most 15 digits within the precision, below 2^53
    let d = 1 + cx.below(15) as u32;
    let mut m = cx.below(10u64.pow(d)) as i128;
    let mut e = if cx.chance(1, 2) { 0 } else { cx.usize((ty.prec.min(15)) as usize + 1) };
    // or an integer beyond what floats hold
    let wide = cx.chance(1, 3);
    if wide {
        e = 0;
        m = match cx.below(4) {
            0 => (gen::raw(cx, ty) / ty.coef()).saturating_abs(),
            1 => (ty.max() / ty.coef()).saturating_add(cx.below(3) as i128 - 1),
            2 => cx.below(0) as i128,
            _ => (1i128 << (51 + cx.below(14))) + cx.below(5) as i128 - 2,
        }
        .max(0);
    }
    let neg = cx.chance(1, 2) && m != 0;
    let c = 10i128.pow(e as u32);
    let int = if neg { -(m / c) } else { m / c };
    let mut text = format!("{}{}", if neg { "-" } else { "" }, m / c);
    if e > 0 {
        text += &format!(".{:0w$}", m % c, w = e);
    }
    let mut forms = vec![Tk::Text(text.clone())];
    if m % c == 0 {
        forms.push(Tk::Int(int));
        if e == 0 && ty.prec > 0 {
            forms.push(Tk::Text(format!("{text}.0")));
        }
    }
    if e > 0 || ty.prec > 0 {
        let long = if text.contains('.') { format!("{text}000") } else { format!("{text}.000") };
        forms.push(Tk::Text(long));
    }
    if !wide {
        forms.push(Tk::Float(text.parse().unwrap()));
    }
    forms.push(Tk::Text(format!("  {text} ")));
    if !neg {
        forms.push(Tk::Text(format!("+{text}")));
    }
    let mut first = None;
    for t in &forms {
        let h = hand(cx, k, t, true);
        let a = calm("decoding", || de(k.code, k.m, HandDe { h: &h, human: true }))?.map_err(|_| ());
        cx.op();
        let (a0, t0) = first.get_or_insert((a, t.clone()));
        if *a0 != a {
            return viol("same-number", format!("{} {:?}: {t:?} (as {h:?}) is read as {a:?}, but {t0:?} as {a0:?}", ty.name(), k.m));
        }
    }
    let want = ty.parse(&text, false).map(Some).map_err(|_| ());
    let got = first.unwrap().0;
    if got != want {
        return viol("same-number", format!("{} {:?}: {text} is read as {got:?}, required {want:?}", ty.name(), k.m));
    }
    cx.event(format!("{} {text}: {} forms agree on {got:?}", ty.name(), forms.len()));
    cx.fault("delivery-varied");
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// Whole documents, written by another peer.

fn json_text(cx: &Cx, s: &str, out: &mut String) {
    out.push('"');
    let escape = cx.chance(1, 2);
    for c in s.chars() {
        if c < ' ' || c == '"' || c == '\\' || escape && cx.chance(1, 3) {
            *out += &format!("\\u{:04x}", c as u32);
        } else {
            out.push(c);
        }
    }
    out.push('"');
}
fn json(cx: &Cx, t: &Tk, out: &mut String) {
    match t {
        Tk::Null | Tk::Missing => *out += "null",
        Tk::Text(s) => json_text(cx, s, out),
        Tk::Int(v) => *out += &v.to_string(),
        Tk::Big(v) => *out += &v.to_string(),
        Tk::Float(f) => *out += &if cx.chance(1, 2) { format!("{f:?}") } else { format!("{f:e}") },
        Tk::Blob(_) => unreachable!(),
        Tk::Junk(0) => *out += "true",
        Tk::Junk(1) => *out += "[]",
        Tk::Junk(_) => *out += "{}",
        Tk::Tagged(k, s) => {
            out.push('{');
            json_text(cx, k, out);
            out.push(':');
            json_text(cx, s, out);
            out.push('}');
        }
    }
}
fn toml(cx: &Cx, t: &Tk, out: &mut String) {
    match t {
        Tk::Text(s) if !s.contains(['\'', '\r', '\n']) && s.chars().all(|c| c == '\t' || !c.is_control()) && cx.chance(1, 4) => *out += &format!("'{s}'"),
        Tk::Text(s) => {
            let quote = *cx.pick(&["\"", "\"", "\"\"\""]);
            *out += quote;
            for c in s.chars() {
                if c.is_control() || c == '"' || c == '\\' || cx.chance(1, 6) {
                    *out += &format!("\\U{:08x}", c as u32);
                } else {
                    out.push(c);
                }
            }
            *out += quote;
        }
        Tk::Int(v) => {
            let d = v.unsigned_abs().to_string();
            *out += if *v < 0 { "-" } else { *cx.pick(&["", "", "+"]) };
            match cx.below(6) {
                0 if *v >= 0 => {
                    out.truncate(out.trim_end_matches('+').len());
                    *out += &format!("0x{v:x}")
                }
                1 => {
                    for (i, c) in d.chars().enumerate() {
                        if i > 0 && cx.chance(1, 3) {
                            out.push('_');
                        }
                        out.push(c);
                    }
                }
                _ => *out += &d,
            }
        }
        Tk::Float(f) => *out += &if cx.chance(1, 2) { format!("{f:?}") } else { format!("{f:e}").replace('e', *cx.pick(&["e", "E"])) },
        Tk::Junk(0) => *out += *cx.pick(&["true", "1979-05-27", "1979-05-27T07:32:00Z", "07:32:00"]),
        Tk::Junk(1) => *out += "[]",
        Tk::Junk(_) => *out += "{}",
        Tk::Tagged(k, s) => {
            *out += &format!("{{ \"{k}\" = ");
            toml(cx, &Tk::Text(s.clone()), out);
            *out += " }";
        }
        Tk::Null | Tk::Missing | Tk::Big(_) | Tk::Blob(_) => unreachable!(),
    }
}
fn cbor_head(major: u8, v: u64, extra: usize, out: &mut Vec<u8>) {
    // the smallest class that holds it, or a larger one
    let small = if v < 24 { 0 } else if v < 256 { 1 } else if v < 65536 { 2 } else if v < 1 << 32 { 3 } else { 4 };
    match (small + extra).min(4) {
        0 => out.push(major << 5 | v as u8),
        1 => out.extend_from_slice(&[major << 5 | 24, v as u8]),
        2 => {
            out.push(major << 5 | 25);
            out.extend_from_slice(&(v as u16).to_be_bytes());
        }
        3 => {
            out.push(major << 5 | 26);
            out.extend_from_slice(&(v as u32).to_be_bytes());
        }
        _ => {
            out.push(major << 5 | 27);
            out.extend_from_slice(&v.to_be_bytes());
        }
    }
}
/// Text in pieces, which not every decoder call of ciborium takes.
const CHUNKED: &str = "chunked-text";
fn cbor_text(cx: &Cx, s: &str, out: &mut Vec<u8>) {
    if cx.chance(1, 24) && s.is_ascii() {
        cx.probe(CHUNKED);
        out.push(0x7f);
        let mut rest = s.as_bytes();
        while !rest.is_empty() {
            let n = 1 + cx.usize(rest.len());
            cbor_head(3, n as u64, 0, out);
            out.extend_from_slice(&rest[..n]);
            rest = &rest[n..];
        }
        out.push(0xff);
    } else {
        cbor_head(3, s.len() as u64, cx.usize(2), out);
        out.extend_from_slice(s.as_bytes());
    }
}
fn cbor(cx: &Cx, k: Kind, t: &Tk, out: &mut Vec<u8>) {
    match t {
        Tk::Null | Tk::Missing => out.push(0xf6),
        Tk::Text(s) => cbor_text(cx, s, out),
        Tk::Int(v) => {
            let (major, n) = if *v < 0 { (1, !*v as u128) } else { (0, *v as u128) };
            if n <= u64::MAX as u128 && (k.code / 64 < 128 || k.m.base() == Module::Float || cx.chance(3, 4)) {
                cbor_head(major, n as u64, cx.usize(3), out);
            } else {
                out.push(0xc2 + major);
                let b = n.to_be_bytes();
                let skip = b.iter().take_while(|x| **x == 0).count();
                let skip = skip - cx.usize(skip + 1).min(2).min(skip);
                cbor_head(2, (16 - skip) as u64, 0, out);
                out.extend_from_slice(&b[skip..]);
            }
        }
        Tk::Big(_) => out.push(0xf6),
        Tk::Float(f) => {
            if (*f as f32) as f64 == *f && cx.chance(1, 2) {
                out.push(0xfa);
                out.extend_from_slice(&(*f as f32).to_be_bytes());
            } else {
                out.push(0xfb);
                out.extend_from_slice(&f.to_be_bytes());
            }
        }
        Tk::Blob(_) => unreachable!(),
        Tk::Junk(0) => out.push(0xf5),
        Tk::Junk(1) => out.push(0x80),
        Tk::Junk(_) => out.push(0xa0),
        Tk::Tagged(k, s) => {
            out.push(0xa1);
            cbor_text(cx, k, out);
            cbor_text(cx, s, out);
        }
    }
}

fn document(cx: &Cx) -> Res {
    let kinds = kinds(cx, 4);
    let human = cx.chance(2, 3);
    let shape = *cx.pick(&[Shape::Struct, Shape::Map, Shape::Tuple, Shape::Single]);
    let kinds = if shape == Shape::Single { kinds[..1].to_vec() } else { kinds };
    let mut tks: Vec<Tk> = kinds.iter().map(|k| tk(cx, *k, human)).collect();
    let keyed = matches!(shape, Shape::Struct | Shape::Map);
    if !keyed {
        for t in &mut tks {
            if *t == Tk::Missing {
                *t = Tk::Null;
            }
        }
    }
    // order of the fields, with a tag and a stranger among them
    let mut order: Vec<usize> = (0..kinds.len()).filter(|i| tks[*i] != Tk::Missing).collect();
    for i in (1..order.len()).rev() {
        if keyed {
            order.swap(i, cx.usize(i + 1));
        }
    }
    let tag_at = if keyed { cx.usize(order.len() + 1) } else { usize::MAX };
    let chunked_before = cx.lock().probes.get(CHUNKED).copied();
    let ws = |cx: &Cx| if human { *cx.pick(&["", "", " ", "\n", "\t "]) } else { "" };
    let bytes = if human {
        let mut s = String::new();
        let (open, close) = match shape {
            Shape::Single => ("", ""),
            Shape::Tuple => ("[", "]"),
            _ => ("{", "}"),
        };
        s += ws(cx);
        s += open;
        let mut n = 0;
        for at in 0..=order.len() {
            if at == tag_at {
                if n > 0 {
                    s.push(',');
                }
                s += "\"t\":\"A\"";
                n += 1;
            }
            let Some(i) = order.get(at) else { break };
            if n > 0 {
                s.push(',');
            }
            n += 1;
            s += ws(cx);
            if keyed {
                json_text(cx, NAMES[*i], &mut s);
                s += ws(cx);
                s.push(':');
                s += ws(cx);
            }
            json(cx, &tks[*i], &mut s);
            s += ws(cx);
        }
        s += close;
        s.into_bytes()
    } else {
        let mut b = vec![];
        let indefinite = cx.chance(1, 4);
        let n = (order.len() + usize::from(keyed)) as u64;
        match shape {
            Shape::Single => {}
            Shape::Tuple if indefinite => b.push(0x9f),
            Shape::Tuple => cbor_head(4, n, cx.usize(2), &mut b),
            _ if indefinite => b.push(0xbf),
            _ => cbor_head(5, n, cx.usize(2), &mut b),
        }
        for at in 0..=order.len() {
            if at == tag_at {
                cbor_text(cx, "t", &mut b);
                cbor_text(cx, "A", &mut b);
            }
            let Some(i) = order.get(at) else { break };
            if keyed {
                cbor_text(cx, NAMES[*i], &mut b);
            }
            cbor(cx, kinds[*i], &tks[*i], &mut b);
        }
        if indefinite && shape != Shape::Single {
            b.push(0xff);
        }
        b
    };
    let chunked = cx.lock().probes.get(CHUNKED).copied() != chunked_before;
    let rec = Rec { kinds: kinds.clone(), shape };
    cx.event(format!("document {kinds:?} {:?} {tks:?}", Bytes(&bytes)));
    let mut routes: Vec<Route> = if human { Route::of(Format::Json).to_vec() } else { Route::of(Format::Cbor).to_vec() };
    if human && keyed {
        routes.extend([Route::JsonFlat, Route::JsonUntagged, Route::JsonTagged]);
    }
    // the same content as a TOML file (which is written without what is null)
    let mut other = String::new();
    if human && keyed && cx.chance(1, 2) {
        routes.extend(Route::of(Format::Toml));
        for i in &order {
            if tks[*i] != Tk::Null {
                other += &format!("{}{}{}={}", ws(cx).trim_matches('\n'), NAMES[*i], *cx.pick(&["", " "]), cx.pick(&["", " ", "\t"]));
                toml(cx, &tks[*i], &mut other);
                other += *cx.pick(&["\n", " # c\n", "\r\n", "\n\n"]);
            }
        }
        cx.event(format!("as TOML: {other:?}"));
    }
    let wants: Vec<Option<Verdict>> = kinds.iter().zip(&tks).map(|(k, t)| want(*k, t, human)).collect();
    // does the format hand over each token as such?
    let plain = |t: &Tk, k: Kind| match t {
        // (JSON: as i64, u64 or, beyond those, as a float, unless the decoder asks for 128 bits)
        Tk::Int(v) => (*v >= i64::MIN as i128 && *v <= u64::MAX as i128 && (other.is_empty() || *v <= i64::MAX as i128) || k.code / 64 == 128 && k.m.base() == Module::Repr) && (human || k.m.base() != Module::Float),
        Tk::Big(_) => false,
        _ => true,
    };
    let mut complete: Option<(BTreeMap<usize, Option<i128>>, Route)> = None;
    let rounds = routes.len() + cx.usize(3);
    let first = cx.usize(routes.len());
    for n in 0..rounds {
        let route = routes[(first + n) % routes.len()];
        let plan = if route.reader() { Plan::benign(cx) } else { Plan::smooth() };
        let stats = Stats::new();
        let bytes = if Route::of(Format::Toml).contains(&route) { other.as_bytes() } else { &bytes };
        let got = check(route, bytes, &plan, std::slice::from_ref(&rec), &stats)?;
        stats.book(cx);
        cx.fault("delivery-varied");
        cx.op();
        let (d, j) = &got[0];
        cx.event(format!("{route:?}: {j:?} {:?}", d.fields));
        let tree = !matches!(route, Route::JsonSlice | Route::JsonStr | Route::JsonReader | Route::CborSlice | Route::CborReader);
        for (i, g) in &d.fields {
            let Got::Val(v) = g else { unreachable!() };
            if let (Some(w), true) = (&wants[*i], plain(&tks[*i], kinds[*i])) {
                if !meets(kinds[*i].ty(), w, &Ok(*v)) {
                    return viol("delivered", format!("{route:?} of {:?}: field {i} ({:?}, holding {:?}) is read as {v:?}, required {w:?}", Bytes(bytes), kinds[*i], tks[*i]));
                }
            }
        }
        match j {
            Judged::Complete => {
                let m: BTreeMap<usize, Option<i128>> = d.fields.iter().map(|(i, g)| (*i, if let Got::Val(v) = g { *v } else { None })).collect();
                match &complete {
                    None => complete = Some((m, route)),
                    // (wide integers are handed over as such by TOML, as floats by JSON)
                    Some((_, r0)) if Route::of(Format::Toml).contains(r0) != Route::of(Format::Toml).contains(&route) && !tks.iter().zip(&kinds).all(|(t, k)| plain(t, *k)) => {}
                    Some((c, r0)) if *c != m => return viol("delivery-dependent", format!("{:?}: {route:?} reads {m:?}, {r0:?} reads {c:?}", Bytes(bytes))),
                    _ => {}
                }
            }
            Judged::Rejected | Judged::FormatFailed => {
                let all_good = wants.iter().zip(&tks).zip(&kinds).all(|((w, t), k)| {
                    plain(t, *k)
                        && match w {
                            Some(Verdict::Float(f)) => f.abs() < 1e4 && k.ty().max() / k.ty().coef() > 20_000 && *f == f.trunc(),
                            Some(Verdict::Reject) | None => false,
                            _ => true,
                        }
                });
                // serde's own buffers and trees cannot hold 128-bit integers
                let wide = tree && kinds.iter().zip(&tks).any(|(k, t)| k.code / 64 == 128 && matches!(k.m.base(), Module::Repr | Module::Default) && matches!(t, Tk::Int(_)));
                if all_good && !wide && !chunked {
                    return viol("refused", format!("{route:?} of {:?}: {:?}, though every field holds an amount ({tks:?})", Bytes(bytes), d.end));
                }
                if *j == Judged::FormatFailed {
                    cx.probe("format-cannot-carry");
                }
            }
        }
    }
    cx.lock().time_us += 1000;
    Ok(())
}

pub fn run(cx: &Cx) -> Res {
    for _ in 0..1 + cx.usize(6) {
        match cx.below(4) {
            0 => by_hand(cx)?,
            1 => same_number(cx)?,
            2 => document(cx)?,
            _ => {
                for _ in 0..4 {
                    by_hand(cx)?;
                }
            }
        }
    }
    Ok(())
}
