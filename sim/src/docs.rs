//! Documents made of amounts, for any serde format: real (de)serialization by fixnum, and a
//! shadow that records what the format itself delivers, without any fixnum code.
use crate::core::Cx;
use fixnum::{typenum::*, FixedPoint};
use fxmodel::{Ty, Z};
use serde::de::{self, DeserializeSeed, Deserializer, IgnoredAny, MapAccess, SeqAccess, Visitor};
use serde::ser::{SerializeMap, SerializeStruct, SerializeTuple};
use serde::{Deserialize, Serialize, Serializer};
use std::cell::RefCell;
use std::fmt;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Module {
    Default,
    Repr,
    Str,
    Float,
    OptDefault,
    ReprOption,
    StrOption,
    FloatOption,
}
pub const MODULES: [Module; 8] = [
    Module::Default,
    Module::Repr,
    Module::Str,
    Module::Float,
    Module::OptDefault,
    Module::ReprOption,
    Module::StrOption,
    Module::FloatOption,
];
impl Module {
    pub fn optional(self) -> bool {
        self as u8 >= Module::OptDefault as u8
    }
    pub fn base(self) -> Module {
        match self {
            Module::OptDefault => Module::Default,
            Module::ReprOption => Module::Repr,
            Module::StrOption => Module::Str,
            Module::FloatOption => Module::Float,
            m => m,
        }
    }
}

/// Types offered to in-process scenarios (codes: bits * 64 + precision).
pub const TYPES: &[u32] = &[
    64 * 64 + 9,
    64 * 64,
    64 * 64 + 2,
    64 * 64 + 18,
    64 * 64 + 6,
    #[cfg(feature = "wide")]
    (16 * 64),
    #[cfg(feature = "wide")]
    (16 * 64 + 2),
    #[cfg(feature = "wide")]
    (16 * 64 + 4),
    #[cfg(feature = "wide")]
    (32 * 64),
    #[cfg(feature = "wide")]
    (32 * 64 + 4),
    #[cfg(feature = "wide")]
    (32 * 64 + 9),
    #[cfg(feature = "wide")]
    (128 * 64),
    #[cfg(feature = "wide")]
    (128 * 64 + 9),
    #[cfg(feature = "wide")]
    (128 * 64 + 18),
    #[cfg(feature = "wide")]
    (128 * 64 + 38),
    #[cfg(feature = "wide")]
    (32 * 64 + 2),
    #[cfg(feature = "wide")]
    (128 * 64 + 1),
    #[cfg(feature = "wide")]
    (128 * 64 + 25),
];
pub fn ty_of(code: u32) -> Ty {
    Ty::new(code / 64, code % 64)
}

/// `each_type!(code, go)` expands to a match calling `go!(int, prec)`.
#[macro_export]
macro_rules! each_type {
    ($code:expr, $go:ident) => {
        match ($code / 64, $code % 64) {
            (64, 0) => $go!(i64, U0),
            (64, 2) => $go!(i64, U2),
            (64, 6) => $go!(i64, U6),
            (64, 9) => $go!(i64, U9),
            (64, 18) => $go!(i64, U18),
            #[cfg(feature = "wide")]
            (16, 0) => $go!(i16, U0),
            #[cfg(feature = "wide")]
            (16, 2) => $go!(i16, U2),
            #[cfg(feature = "wide")]
            (16, 4) => $go!(i16, U4),
            #[cfg(feature = "wide")]
            (32, 0) => $go!(i32, U0),
            #[cfg(feature = "wide")]
            (32, 4) => $go!(i32, U4),
            #[cfg(feature = "wide")]
            (32, 9) => $go!(i32, U9),
            #[cfg(feature = "wide")]
            (128, 0) => $go!(i128, U0),
            #[cfg(feature = "wide")]
            (128, 9) => $go!(i128, U9),
            #[cfg(feature = "wide")]
            (128, 18) => $go!(i128, U18),
            #[cfg(feature = "wide")]
            (128, 38) => $go!(i128, U38),
            #[cfg(feature = "wide")]
            (32, 2) => $go!(i32, U2),
            #[cfg(feature = "wide")]
            (128, 1) => $go!(i128, U1),
            #[cfg(feature = "wide")]
            (128, 25) => $go!(i128, U25),
            _ => panic!("harness: type"),
        }
    };
}

/// An amount of an application's own, which half of the representations are used with.
#[derive(Clone)]
struct Own<F>(F);
macro_rules! own {
    ($($i:ident $([$w:literal])?)*) => { $(
        $(#[cfg(feature = $w)])?
        impl<P> From<FixedPoint<$i, P>> for Own<FixedPoint<$i, P>> {
            fn from(x: FixedPoint<$i, P>) -> Self {
                Own(x)
            }
        }
        $(#[cfg(feature = $w)])?
        impl<P> From<Own<FixedPoint<$i, P>>> for FixedPoint<$i, P> {
            fn from(x: Own<FixedPoint<$i, P>>) -> Self {
                x.0
            }
        }
    )* };
}
own!(i16 ["wide"] i32 ["wide"] i64 i128 ["wide"]);

/// Serialize by fixnum.
pub fn ser<S: Serializer>(code: u32, m: Module, v: Option<i128>, s: S) -> Result<S::Ok, S::Error> {
    macro_rules! go {
        ($i:ident, $p:ident) => {{
            let o = v.map(|v| FixedPoint::<$i, $p>::from_bits(v as $i));
            let x = o.unwrap_or(FixedPoint::from_bits(0));
            match m {
                Module::Default => x.serialize(s),
                Module::Repr => fixnum::serde::repr::serialize(&x, s),
                Module::Str => fixnum::serde::str::serialize(&x, s),
                Module::Float => fixnum::serde::float::serialize(&Own(x), s),
                Module::OptDefault => o.serialize(s),
                Module::ReprOption => fixnum::serde::repr_option::serialize(&o.map(Own), s),
                Module::StrOption => fixnum::serde::str_option::serialize(&o.map(Own), s),
                Module::FloatOption => fixnum::serde::float_option::serialize(&o, s),
            }
        }};
    }
    each_type!(code, go)
}

/// Deserialize by fixnum.
pub fn de<'de, D: Deserializer<'de>>(code: u32, m: Module, d: D) -> Result<Option<i128>, D::Error> {
    macro_rules! go {
        ($i:ident, $p:ident) => {{
            type F = FixedPoint<$i, $p>;
            let one = |x: F| Some(x.into_bits() as i128);
            let opt = |x: Option<F>| x.map(|x| x.into_bits() as i128);
            match m {
                Module::Default => F::deserialize(d).map(one),
                Module::Repr => fixnum::serde::repr::deserialize(d).map(one),
                Module::Str => fixnum::serde::str::deserialize(d).map(one),
                Module::Float => fixnum::serde::float::deserialize(d).map(|x: Own<F>| one(x.0)),
                Module::OptDefault => Option::<F>::deserialize(d).map(opt),
                Module::ReprOption => fixnum::serde::repr_option::deserialize(d).map(|x: Option<Own<F>>| opt(x.map(|x| x.0))),
                Module::StrOption => fixnum::serde::str_option::deserialize(d).map(|x: Option<Own<F>>| opt(x.map(|x| x.0))),
                Module::FloatOption => fixnum::serde::float_option::deserialize(d).map(opt),
            }
        }};
    }
    each_type!(code, go)
}

/// What a format delivered for one amount.
#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    /// null / none
    Nothing,
    /// an integer of the layout, taken as raw bits
    Raw(i128),
    Int(i128),
    Uint(u128),
    Float(f64),
    Str(String),
    /// something that is no number
    Junk,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Verdict {
    Nothing,
    Is(i128),
    Float(f64),
    Reject,
}

pub fn verdict(ty: Ty, t: &Tok) -> Verdict {
    let r = match t {
        Tok::Nothing => return Verdict::Nothing,
        Tok::Raw(v) => Ok(*v),
        Tok::Int(v) => ty.from_int(Z::new(*v)),
        Tok::Uint(v) => ty.from_int(Z::from_u128(*v)),
        Tok::Float(f) => return Verdict::Float(*f),
        Tok::Str(s) => ty.parse(s, false),
        Tok::Junk => return Verdict::Reject,
    };
    r.map_or(Verdict::Reject, Verdict::Is)
}

fn junk<E>() -> Result<Tok, E> {
    PENDING.with(|p| *p.borrow_mut() = Some(Tok::Junk));
    Ok(Tok::Junk)
}
struct AnyTok;
impl<'de> Visitor<'de> for AnyTok {
    type Value = Tok;
    fn expecting(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("a number or a string")
    }
    fn visit_str<E: de::Error>(self, s: &str) -> Result<Tok, E> {
        Ok(Tok::Str(s.to_string()))
    }
    fn visit_f64<E: de::Error>(self, f: f64) -> Result<Tok, E> {
        Ok(Tok::Float(f))
    }
    fn visit_i64<E: de::Error>(self, v: i64) -> Result<Tok, E> {
        Ok(Tok::Int(v as i128))
    }
    fn visit_u64<E: de::Error>(self, v: u64) -> Result<Tok, E> {
        Ok(Tok::Int(v as i128))
    }
    fn visit_i128<E: de::Error>(self, v: i128) -> Result<Tok, E> {
        Ok(Tok::Int(v))
    }
    fn visit_u128<E: de::Error>(self, v: u128) -> Result<Tok, E> {
        Ok(Tok::Uint(v))
    }
    fn visit_bool<E: de::Error>(self, _: bool) -> Result<Tok, E> {
        Ok(Tok::Junk)
    }
    fn visit_unit<E: de::Error>(self) -> Result<Tok, E> {
        Ok(Tok::Junk)
    }
    fn visit_none<E: de::Error>(self) -> Result<Tok, E> {
        Ok(Tok::Junk)
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Tok, D::Error> {
        let _ = d;
        junk()
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<Tok, D::Error> {
        let _ = d;
        junk()
    }
    fn visit_bytes<E: de::Error>(self, _: &[u8]) -> Result<Tok, E> {
        Ok(Tok::Junk)
    }
    fn visit_seq<A: SeqAccess<'de>>(self, _: A) -> Result<Tok, A::Error> {
        junk()
    }
    fn visit_enum<A: de::EnumAccess<'de>>(self, _: A) -> Result<Tok, A::Error> {
        junk()
    }
    /// `<tag>1.5</tag>` arrives as a map with the single key `$value` (with XML support enabled).
    #[cfg(feature = "xml")]
    fn visit_map<A: MapAccess<'de>>(self, mut map: A) -> Result<Tok, A::Error> {
        match map.next_key::<String>()?.as_deref() {
            Some("$value") => {
                let s = map.next_value::<String>()?;
                // the format may still fail after the amount has been judged
                PENDING.with(|p| *p.borrow_mut() = Some(Tok::Str(s.clone())));
                Ok(Tok::Str(s))
            }
            _ => junk(),
        }
    }
}
struct ShadowDefault(Tok);
thread_local! { static PENDING: RefCell<Option<Tok>> = const { RefCell::new(None) }; }
thread_local! { static REPR: std::cell::Cell<u32> = const { std::cell::Cell::new(64) }; }
fn raw<'de, D: Deserializer<'de>>(d: D) -> Result<i128, D::Error> {
    match REPR.with(|r| r.get()) {
        16 => i16::deserialize(d).map(|v| v as i128),
        32 => i32::deserialize(d).map(|v| v as i128),
        64 => i64::deserialize(d).map(|v| v as i128),
        _ => i128::deserialize(d),
    }
}
impl<'de> Deserialize<'de> for ShadowDefault {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        if d.is_human_readable() {
            d.deserialize_any(AnyTok).map(ShadowDefault)
        } else {
            raw(d).map(Tok::Raw).map(ShadowDefault)
        }
    }
}
struct ShadowStr(String);
impl<'de> Deserialize<'de> for ShadowStr {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl Visitor<'_> for V {
            type Value = String;
            fn expecting(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.write_str("a string")
            }
            fn visit_str<E: de::Error>(self, s: &str) -> Result<String, E> {
                Ok(s.to_string())
            }
            fn visit_bytes<E: de::Error>(self, b: &[u8]) -> Result<String, E> {
                std::str::from_utf8(b).map(|s| s.to_string()).map_err(|_| E::custom("not text"))
            }
        }
        d.deserialize_str(V).map(ShadowStr)
    }
}
struct ShadowRaw(i128);
impl<'de> Deserialize<'de> for ShadowRaw {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        raw(d).map(ShadowRaw)
    }
}

/// What the format delivers for the field; no fixnum code.
pub fn shadow<'de, D: Deserializer<'de>>(code: u32, m: Module, d: D) -> Result<Tok, D::Error> {
    REPR.with(|r| r.set(code / 64));
    let none = Tok::Nothing;
    match m {
        Module::Default => ShadowDefault::deserialize(d).map(|x| x.0),
        Module::Repr => raw(d).map(Tok::Raw),
        Module::Str => ShadowStr::deserialize(d).map(|x| Tok::Str(x.0)),
        Module::Float => f64::deserialize(d).map(Tok::Float),
        Module::OptDefault => Option::<ShadowDefault>::deserialize(d).map(|x| x.map_or(none, |x| x.0)),
        Module::ReprOption => Option::<ShadowRaw>::deserialize(d).map(|x| x.map_or(none, |x| Tok::Raw(x.0))),
        Module::StrOption => Option::<ShadowStr>::deserialize(d).map(|x| x.map_or(none, |x| Tok::Str(x.0))),
        Module::FloatOption => Option::<f64>::deserialize(d).map(|x| x.map_or(none, Tok::Float)),
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Kind {
    pub code: u32,
    pub m: Module,
}
impl Kind {
    pub fn ty(&self) -> Ty {
        ty_of(self.code)
    }
}

/// One decoded field: position, and the amount (real) or the token (shadow).
#[derive(Clone, Debug, PartialEq)]
pub enum Got {
    Val(Option<i128>),
    Tok(Tok),
}
pub type Sink = RefCell<Vec<(usize, Got)>>;

pub struct FieldSeed<'s> {
    pub idx: usize,
    pub kind: Kind,
    pub real: bool,
    pub out: &'s Sink,
}
impl<'de> DeserializeSeed<'de> for FieldSeed<'_> {
    type Value = ();
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        let g = if self.real {
            Got::Val(de(self.kind.code, self.kind.m, d)?)
        } else {
            PENDING.with(|p| p.take());
            let t = match shadow(self.kind.code, self.kind.m, d) {
                Ok(t) => t,
                Err(e) => {
                    let t = PENDING.with(|p| p.take());
                    return match t {
                        Some(t) if verdict(self.kind.ty(), &t) == Verdict::Reject => {
                            self.out.borrow_mut().push((self.idx, Got::Tok(t)));
                            Err(de::Error::custom("shadow: not an amount"))
                        }
                        _ => Err(e),
                    };
                }
            };
            let junk = verdict(self.kind.ty(), &t) == Verdict::Reject;
            self.out.borrow_mut().push((self.idx, Got::Tok(t)));
            return if junk { Err(de::Error::custom("shadow: not an amount")) } else { Ok(()) };
        };
        self.out.borrow_mut().push((self.idx, g));
        Ok(())
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Shape {
    Single,
    Tuple,
    Struct,
    Map,
    /// A struct whose only field is a sequence of all the amounts.
    List,
    /// Maps of one entry each, whose keys are amounts, too.
    Keyed,
    /// One of an enum's variants, each of which holds an amount.
    Variant,
}
pub const NAMES: [&str; 6] = ["f0", "f1", "f2", "f3", "f4", "f5"];

pub struct DocSeed<'s> {
    pub kinds: &'s [Kind],
    pub shape: Shape,
    pub real: bool,
    pub out: &'s Sink,
}
impl<'s> DocSeed<'s> {
    fn field(&self, idx: usize) -> FieldSeed<'s> {
        FieldSeed { idx, kind: self.kinds[idx], real: self.real, out: self.out }
    }
}
impl<'de> DeserializeSeed<'de> for DocSeed<'_> {
    type Value = ();
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        match self.shape {
            Shape::Single => self.field(0).deserialize(d),
            Shape::Tuple => d.deserialize_tuple(self.kinds.len(), self),
            Shape::Struct => d.deserialize_struct("doc", &NAMES[..self.kinds.len()], self),
            Shape::Map => d.deserialize_map(self),
            Shape::List => d.deserialize_struct("doc", &NAMES[..1], self),
            Shape::Keyed => d.deserialize_tuple(self.kinds.len().div_ceil(2), self),
            Shape::Variant => d.deserialize_enum("doc", &NAMES[..self.kinds.len()], self),
        }
    }
}
/// `{amount: amount}`, or `{amount: true}` where there is no other.
struct EntrySeed<'a, 's>(&'a DocSeed<'s>, usize);
impl<'de> DeserializeSeed<'de> for EntrySeed<'_, '_> {
    type Value = ();
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        d.deserialize_map(self)
    }
}
impl<'de> Visitor<'de> for EntrySeed<'_, '_> {
    type Value = ();
    fn expecting(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("one entry")
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<(), A::Error> {
        let EntrySeed(doc, i) = self;
        if a.next_key_seed(doc.field(i))?.is_none() {
            return Err(de::Error::invalid_length(0, &self));
        }
        if i + 1 < doc.kinds.len() {
            a.next_value_seed(doc.field(i + 1))?;
        } else {
            a.next_value::<bool>()?;
        }
        match a.next_key::<IgnoredAny>()? {
            None => Ok(()),
            Some(_) => Err(de::Error::invalid_length(2, &self)),
        }
    }
}
struct Variant(usize);
impl<'de> Deserialize<'de> for Variant {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Variant, D::Error> {
        struct V;
        impl Visitor<'_> for V {
            type Value = Variant;
            fn expecting(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.write_str("variant")
            }
            fn visit_u64<E>(self, i: u64) -> Result<Variant, E> {
                Ok(Variant(i as usize))
            }
            fn visit_str<E>(self, s: &str) -> Result<Variant, E> {
                Ok(Variant(NAMES.iter().position(|n| *n == s).unwrap_or(usize::MAX)))
            }
            fn visit_bytes<E>(self, s: &[u8]) -> Result<Variant, E> {
                Ok(Variant(NAMES.iter().position(|n| n.as_bytes() == s).unwrap_or(usize::MAX)))
            }
        }
        d.deserialize_identifier(V)
    }
}
struct ListSeed<'a, 's>(&'a DocSeed<'s>);
impl<'de> DeserializeSeed<'de> for ListSeed<'_, '_> {
    type Value = ();
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        d.deserialize_seq(self)
    }
}
impl<'de> Visitor<'de> for ListSeed<'_, '_> {
    type Value = ();
    fn expecting(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("sequence of amounts")
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<(), A::Error> {
        for i in 0..self.0.kinds.len() {
            if a.next_element_seed(self.0.field(i))?.is_none() {
                return Err(de::Error::invalid_length(i, &self));
            }
        }
        match a.next_element::<IgnoredAny>()? {
            None => Ok(()),
            Some(_) => Err(de::Error::invalid_length(self.0.kinds.len() + 1, &self)),
        }
    }
}
/// Field names, whichever way they are delivered.
struct Key(Option<usize>);
impl<'de> Deserialize<'de> for Key {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Key, D::Error> {
        struct V;
        impl Visitor<'_> for V {
            type Value = Key;
            fn expecting(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.write_str("field")
            }
            fn visit_str<E>(self, s: &str) -> Result<Key, E> {
                Ok(Key(NAMES.iter().position(|n| *n == s)))
            }
            fn visit_bytes<E>(self, s: &[u8]) -> Result<Key, E> {
                Ok(Key(NAMES.iter().position(|n| n.as_bytes() == s)))
            }
        }
        d.deserialize_identifier(V)
    }
}
impl<'de> Visitor<'de> for DocSeed<'_> {
    type Value = ();
    fn expecting(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("document of amounts")
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<(), A::Error> {
        if self.shape == Shape::List {
            return a.next_element_seed(ListSeed(&self))?.ok_or_else(|| de::Error::invalid_length(0, &self));
        }
        if self.shape == Shape::Keyed {
            for i in (0..self.kinds.len()).step_by(2) {
                a.next_element_seed(EntrySeed(&self, i))?.ok_or_else(|| de::Error::invalid_length(i / 2, &self))?;
            }
            return Ok(());
        }
        for i in 0..self.kinds.len() {
            if a.next_element_seed(self.field(i))?.is_none() {
                return Err(de::Error::invalid_length(i, &self));
            }
        }
        Ok(())
    }
    fn visit_enum<A: de::EnumAccess<'de>>(self, a: A) -> Result<(), A::Error> {
        let (Variant(i), a) = a.variant::<Variant>()?;
        if i >= self.kinds.len() {
            return Err(de::Error::custom("no such variant"));
        }
        de::VariantAccess::newtype_variant_seed(a, self.field(i))
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<(), A::Error> {
        let mut seen = 0u32;
        if self.shape == Shape::List {
            while let Some(k) = a.next_key::<Key>()? {
                match k.0 {
                    Some(0) if seen == 0 => {
                        seen = 1;
                        a.next_value_seed(ListSeed(&self))?
                    }
                    Some(0) => return Err(de::Error::duplicate_field("f0")),
                    _ => {
                        a.next_value::<IgnoredAny>()?;
                    }
                }
            }
            return if seen == 1 { Ok(()) } else { Err(de::Error::missing_field("f0")) };
        }
        while let Some(k) = a.next_key::<Key>()? {
            match k.0 {
                Some(i) if i < self.kinds.len() => {
                    if seen & 1 << i != 0 {
                        return Err(de::Error::duplicate_field("f"));
                    }
                    seen |= 1 << i;
                    a.next_value_seed(self.field(i))?
                }
                _ => {
                    a.next_value::<IgnoredAny>()?;
                }
            }
        }
        for (i, k) in self.kinds.iter().enumerate() {
            if seen & 1 << i == 0 {
                if !k.m.optional() {
                    return Err(de::Error::missing_field("f"));
                }
                let none = if self.real { Got::Val(None) } else { Got::Tok(Tok::Nothing) };
                self.out.borrow_mut().push((i, none));
            }
        }
        Ok(())
    }
}

/// How quick-xml is asked for child elements instead of attributes.
const CHILD_NAMES: [&str; 6] = ["$unflatten=f0", "$unflatten=f1", "$unflatten=f2", "$unflatten=f3", "$unflatten=f4", "$unflatten=f5"];

pub struct Doc<'a> {
    pub kinds: &'a [Kind],
    pub vals: &'a [Option<i128>],
    pub shape: Shape,
    /// Fields written as XML child elements (a bit each); which of the variants.
    pub children: u32,
    /// By fixnum; otherwise what the documentation says it writes, as plain values.
    pub real: bool,
}

/// The documented wire value of the field, serialized as a plain integer, string or float.
fn ser_plain<S: Serializer>(k: Kind, v: Option<i128>, s: S) -> Result<S::Ok, S::Error> {
    struct Plain(Kind, i128);
    impl Serialize for Plain {
        fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            let Plain(k, v) = *self;
            match k.m.base() {
                Module::Default if s.is_human_readable() => s.serialize_str(&k.ty().display(v)),
                Module::Default | Module::Repr => match k.code / 64 {
                    16 => s.serialize_i16(v as i16),
                    32 => s.serialize_i32(v as i32),
                    64 => s.serialize_i64(v as i64),
                    _ => s.serialize_i128(v),
                },
                Module::Str => s.serialize_str(&k.ty().display(v)),
                _ => s.serialize_f64(to_f64(k.code, v)),
            }
        }
    }
    match v {
        Some(v) if k.m.optional() => s.serialize_some(&Plain(k, v)),
        Some(v) => Plain(k, v).serialize(s),
        None => s.serialize_none(),
    }
}
/// By fixnum's own conversion (whose accuracy is checked separately).
pub fn to_f64(code: u32, v: i128) -> f64 {
    macro_rules! go {
        ($i:ident, $p:ident) => {
            f64::from(FixedPoint::<$i, $p>::from_bits(v as $i))
        };
    }
    each_type!(code, go)
}
pub struct FieldRef(pub Kind, pub Option<i128>, pub bool);
impl Serialize for FieldRef {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        if self.2 {
            ser(self.0.code, self.0.m, self.1, s)
        } else {
            ser_plain(self.0, self.1, s)
        }
    }
}
struct EntryRef<'a, 'b>(&'a Doc<'b>, usize);
impl Serialize for EntryRef<'_, '_> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let (d, i) = (self.0, self.1);
        let f = |i: usize| FieldRef(d.kinds[i], d.vals[i], d.real);
        let mut m = s.serialize_map(Some(1))?;
        m.serialize_key(&f(i))?;
        if i + 1 < d.kinds.len() {
            m.serialize_value(&f(i + 1))?;
        } else {
            m.serialize_value(&true)?;
        }
        m.end()
    }
}
struct ListRef<'a, 'b>(&'a Doc<'b>);
impl Serialize for ListRef<'_, '_> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let d = self.0;
        s.collect_seq((0..d.kinds.len()).map(|i| FieldRef(d.kinds[i], d.vals[i], d.real)))
    }
}
impl Serialize for Doc<'_> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let n = self.kinds.len();
        match self.shape {
            Shape::Single => FieldRef(self.kinds[0], self.vals[0], self.real).serialize(s),
            Shape::Tuple => {
                let mut t = s.serialize_tuple(n)?;
                for i in 0..n {
                    t.serialize_element(&FieldRef(self.kinds[i], self.vals[i], self.real))?;
                }
                t.end()
            }
            Shape::Struct => {
                let mut t = s.serialize_struct("doc", n)?;
                for i in 0..n {
                    let name = if self.children & 1 << i != 0 { CHILD_NAMES[i] } else { NAMES[i] };
                    t.serialize_field(name, &FieldRef(self.kinds[i], self.vals[i], self.real))?;
                }
                t.end()
            }
            Shape::Keyed => {
                let mut t = s.serialize_tuple(n.div_ceil(2))?;
                for i in (0..n).step_by(2) {
                    t.serialize_element(&EntryRef(self, i))?;
                }
                t.end()
            }
            Shape::Variant => {
                let i = self.children as usize % n;
                s.serialize_newtype_variant("doc", i as u32, NAMES[i], &FieldRef(self.kinds[i], self.vals[i], self.real))
            }
            Shape::List => {
                let mut t = s.serialize_struct("doc", 1)?;
                t.serialize_field(NAMES[0], &ListRef(self))?;
                t.end()
            }
            Shape::Map => {
                let mut t = s.serialize_map(Some(n))?;
                for i in 0..n {
                    t.serialize_entry(NAMES[i], &FieldRef(self.kinds[i], self.vals[i], self.real))?;
                }
                t.end()
            }
        }
    }
}

/// A random schema of 1..=max fields.
pub fn kinds(cx: &Cx, max: usize) -> Vec<Kind> {
    (0..1 + cx.usize(max)).map(|_| Kind { code: *cx.pick(TYPES), m: *cx.pick(&MODULES) }).collect()
}
pub fn vals(cx: &Cx, kinds: &[Kind]) -> Vec<Option<i128>> {
    kinds
        .iter()
        .map(|k| if k.m.optional() && cx.chance(1, 4) { None } else { Some(crate::gen::raw(cx, k.ty())) })
        .collect()
}

/// Is `got` what a correct library makes of the tokens? `Err` describes the difference.
/// `failed`: the real run ended with an error; `shadow_ok`: the format itself delivered everything.
pub fn judge(kinds: &[Kind], real: &[(usize, Got)], shadow: &[(usize, Got)], failed: bool, shadow_failed: bool) -> Result<Judged, String> {
    for (n, (i, g)) in shadow.iter().enumerate() {
        let Got::Tok(t) = g else { unreachable!() };
        let k = kinds[*i];
        let v = verdict(k.ty(), t);
        let r = real.get(n);
        let got = match r {
            Some((j, Got::Val(v))) if j == i => Some(*v),
            Some(_) => return Err(format!("field order differs at {n}")),
            None => None,
        };
        let what = || format!("field {i} ({} {:?}) delivered as {t:?}", k.ty().name(), k.m);
        match (&v, got) {
            (Verdict::Nothing, Some(None)) => {}
            (Verdict::Is(x), Some(Some(y))) if *x == y => {}
            (Verdict::Float(f), Some(Some(y))) if k.ty().from_f64_ok(*f, Ok(y)) => {}
            (Verdict::Float(f), None) if k.ty().from_f64_ok(*f, Err(fxmodel::Err::Convert)) => {
                return if failed { Ok(Judged::Rejected) } else { Err(format!("{}: neither value nor error", what())) };
            }
            (Verdict::Reject, None) => {
                return if failed { Ok(Judged::Rejected) } else { Err(format!("{}: neither value nor error", what())) };
            }
            (v, None) => return Err(format!("{}: rejected, required {v:?}", what())),
            (v, Some(y)) => return Err(format!("{}: read as {y:?}, required {v:?}", what())),
        }
    }
    if real.len() > shadow.len() {
        return Err(format!("read {:?} where the format delivers nothing", real[shadow.len()]));
    }
    if failed != shadow_failed {
        return Err(format!("all amounts agree, but failed={failed} where the format alone has failed={shadow_failed}"));
    }
    Ok(if failed { Judged::FormatFailed } else { Judged::Complete })
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Judged {
    Complete,
    /// The library had to reject an amount, and did.
    Rejected,
    /// The format itself failed; the caller compares the errors.
    FormatFailed,
}

/// The seed as a plain `Deserialize`, for formats (and derived code) that only take types.
pub struct Erased;
#[derive(Clone)]
pub struct Context {
    pub kinds: Vec<Kind>,
    pub shape: Shape,
    pub real: bool,
    pub out: std::rc::Rc<Sink>,
}
thread_local! { pub static CONTEXT: RefCell<Option<Context>> = const { RefCell::new(None) }; }
impl<'de> Deserialize<'de> for Erased {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Erased, D::Error> {
        let c = CONTEXT.with(|c| c.borrow().clone().expect("harness: context"));
        DocSeed { kinds: &c.kinds, shape: c.shape, real: c.real, out: &c.out }.deserialize(d)?;
        Ok(Erased)
    }
}
