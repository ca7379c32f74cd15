//! C12: operations interrupted by other operations, on the same and on other threads, and torn down.
use crate::core::*;
use crate::delivery::{meets, want, Tk};
use crate::docs::{de, ser, ty_of, Kind, Module, MODULES, TYPES};
use crate::each_type;
use crate::gen;
use fixnum::{typenum::*, FixedPoint};
use fxmodel::codes::*;
use fxmodel::{accepts, compact, expect, Expect, Ty};
use parity_scale_codec::{Compact, Decode, Encode, Input};
use serde::de::{Deserializer, IntoDeserializer, MapAccess, Visitor};
use serde::{de as sde, ser as sser, Serializer};
use std::cell::{Cell, RefCell};
use std::fmt::{self, Write as _};
use std::hash::{Hash, Hasher};
use std::io;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Condvar, Mutex};

/// Only the thread whose turn it is runs.
struct Baton {
    turn: Mutex<(usize, Vec<bool>)>,
    cv: Condvar,
    stop: AtomicBool,
}
impl Baton {
    fn next(&self, cx: &Cx, live: &[bool]) -> usize {
        let l: Vec<usize> = (0..live.len()).filter(|i| live[*i]).collect();
        *cx.pick(&l)
    }
    fn switch(&self, me: usize, cx: &Cx) {
        let mut g = self.turn.lock().unwrap();
        let n = self.next(cx, &g.1);
        if n != me {
            cx.switch();
            cx.event(format!("thread {me} -> {n}"));
            g.0 = n;
            self.cv.notify_all();
            while g.0 != me {
                g = self.cv.wait(g).unwrap();
            }
        }
    }
    fn start(&self, me: usize) {
        let mut g = self.turn.lock().unwrap();
        while g.0 != me {
            g = self.cv.wait(g).unwrap();
        }
    }
    fn finish(&self, me: usize, cx: &Cx) {
        let mut g = self.turn.lock().unwrap();
        g.1[me] = false;
        if g.1.iter().any(|l| *l) {
            g.0 = self.next(cx, &g.1);
            self.cv.notify_all();
        }
    }
}

struct Env<'a> {
    cx: &'a Cx,
    baton: &'a Baton,
    me: usize,
    threads: usize,
    depth: Cell<u32>,
    found: RefCell<Option<Viol>>,
    pool: &'a [i128],
    codes: &'a [u32],
    nest: u64,
    yields: u64,
    crash: u64,
}
impl Env<'_> {
    /// The library called back: anything may happen now.
    fn point(&self) {
        let cx = self.cx;
        if self.threads > 1 && self.yields > 0 && cx.chance(self.yields, 1000) {
            cx.probe("switch-inside-operation");
            self.baton.switch(self.me, cx);
        }
        if self.depth.get() < 3 && self.nest > 0 && cx.chance(self.nest, 1000) {
            cx.fault("interrupted-by-operation");
            self.depth.set(self.depth.get() + 1);
            let r = task(self);
            self.depth.set(self.depth.get() - 1);
            if let Err(v) = r {
                let v = Viol { class: v.class, msg: format!("inside another operation: {}", v.msg) };
                self.found.borrow_mut().get_or_insert(v);
                std::panic::panic_any(Crash);
            }
        }
        if self.crash > 0 && cx.chance(self.crash, 1000) {
            cx.fault("torn-down");
            std::panic::panic_any(Crash);
        }
    }
    fn val(&self, ty: Ty) -> i128 {
        if self.cx.chance(3, 4) {
            fit(ty, *self.cx.pick(self.pool))
        } else {
            gen::raw(self.cx, ty)
        }
    }
    /// Run one operation; `None`: it was torn down on purpose.
    fn attempt<T>(&self, what: &str, f: impl FnOnce() -> T) -> Res<Option<T>> {
        let d = self.depth.get();
        let r = crashable(what, f)?;
        self.depth.set(d);
        match self.found.borrow_mut().take() {
            Some(v) => Err(v),
            None => Ok(r),
        }
    }
}
fn fit(ty: Ty, v: i128) -> i128 {
    ((v as u128) << (128 - ty.bits)) as i128 >> (128 - ty.bits)
}

struct Sink<'e, 'a> {
    env: &'e Env<'a>,
    got: String,
    room: usize,
}
impl fmt::Write for Sink<'_, '_> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.env.point();
        if s.len() > self.room {
            self.env.cx.fault("sink-refuses");
            return Err(fmt::Error);
        }
        self.room -= s.len();
        self.got.push_str(s);
        self.env.point();
        Ok(())
    }
}

struct Writer<'e, 'a>(&'e Env<'a>, Vec<u8>);
impl io::Write for Writer<'_, '_> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.0.point();
        let n = if b.len() > 1 && self.0.cx.chance(1, 4) { 1 + self.0.cx.usize(b.len() - 1) } else { b.len() };
        self.1.extend_from_slice(&b[..n]);
        self.0.point();
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
struct Reader<'e, 'a>(&'e Env<'a>, Vec<u8>, usize);
impl io::Read for Reader<'_, '_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.0.point();
        let left = self.1.len() - self.2;
        let mut n = left.min(b.len());
        if n > 1 && self.0.cx.chance(1, 2) {
            n = 1 + self.0.cx.usize(n - 1);
        }
        b[..n].copy_from_slice(&self.1[self.2..self.2 + n]);
        self.2 += n;
        self.0.point();
        Ok(n)
    }
}
impl Input for Reader<'_, '_> {
    fn remaining_len(&mut self) -> Result<Option<usize>, parity_scale_codec::Error> {
        self.0.point();
        Ok(Some(self.1.len() - self.2))
    }
    fn read(&mut self, b: &mut [u8]) -> Result<(), parity_scale_codec::Error> {
        self.0.point();
        if self.1.len() - self.2 < b.len() {
            return Err("the end".into());
        }
        b.copy_from_slice(&self.1[self.2..self.2 + b.len()]);
        self.2 += b.len();
        self.0.point();
        Ok(())
    }
}
struct PointHasher<'e, 'a>(&'e Env<'a>, Vec<u8>);
impl Hasher for PointHasher<'_, '_> {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.point();
        self.1.extend_from_slice(b);
        self.0.point();
    }
}

#[derive(Debug)]
struct Complaint(#[allow(dead_code)] String);
impl fmt::Display for Complaint {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("complaint")
    }
}
impl std::error::Error for Complaint {}
thread_local! { static ENV: Cell<*const ()> = const { Cell::new(std::ptr::null()) }; }
/// The environment of this thread, for errors, which are made without any context.
fn here(f: impl FnOnce(&Env<'_>)) {
    let p = ENV.with(|e| e.get()) as *const Env<'static>;
    if !p.is_null() {
        // set by this thread for as long as it runs its script
        f(unsafe { &*p })
    }
}
impl sde::Error for Complaint {
    fn custom<T: fmt::Display>(t: T) -> Self {
        here(|e| e.point());
        let s = t.to_string();
        here(|e| e.point());
        Complaint(s)
    }
}
impl sser::Error for Complaint {
    fn custom<T: fmt::Display>(t: T) -> Self {
        sde::Error::custom(t)
    }
}

/// What a serializer was given.
#[derive(Debug, PartialEq, Clone)]
enum Given {
    Text(String),
    Int(u32, i128),
    Float(f64),
    Nothing,
    Some(Box<Given>),
    Other,
}
struct Ser<'e, 'a> {
    env: &'e Env<'a>,
    human: bool,
}
impl Ser<'_, '_> {
    fn int(self, bits: u32, v: i128) -> Result<Given, Complaint> {
        self.env.point();
        Ok(Given::Int(bits, v))
    }
}
impl Serializer for Ser<'_, '_> {
    type Ok = Given;
    type Error = Complaint;
    type SerializeSeq = sser::Impossible<Given, Complaint>;
    type SerializeTuple = sser::Impossible<Given, Complaint>;
    type SerializeTupleStruct = sser::Impossible<Given, Complaint>;
    type SerializeTupleVariant = sser::Impossible<Given, Complaint>;
    type SerializeMap = sser::Impossible<Given, Complaint>;
    type SerializeStruct = sser::Impossible<Given, Complaint>;
    type SerializeStructVariant = sser::Impossible<Given, Complaint>;
    fn is_human_readable(&self) -> bool {
        self.env.point();
        self.human
    }
    fn serialize_bool(self, _: bool) -> Result<Given, Complaint> {
        Ok(Given::Other)
    }
    fn serialize_i8(self, v: i8) -> Result<Given, Complaint> {
        self.int(8, v as i128)
    }
    fn serialize_i16(self, v: i16) -> Result<Given, Complaint> {
        self.int(16, v as i128)
    }
    fn serialize_i32(self, v: i32) -> Result<Given, Complaint> {
        self.int(32, v as i128)
    }
    fn serialize_i64(self, v: i64) -> Result<Given, Complaint> {
        self.int(64, v as i128)
    }
    fn serialize_i128(self, v: i128) -> Result<Given, Complaint> {
        self.int(128, v)
    }
    fn serialize_u8(self, v: u8) -> Result<Given, Complaint> {
        self.int(7, v as i128)
    }
    fn serialize_u16(self, v: u16) -> Result<Given, Complaint> {
        self.int(15, v as i128)
    }
    fn serialize_u32(self, v: u32) -> Result<Given, Complaint> {
        self.int(31, v as i128)
    }
    fn serialize_u64(self, v: u64) -> Result<Given, Complaint> {
        self.int(63, v as i128)
    }
    fn serialize_f32(self, _: f32) -> Result<Given, Complaint> {
        Ok(Given::Other)
    }
    fn serialize_f64(self, v: f64) -> Result<Given, Complaint> {
        self.env.point();
        Ok(Given::Float(v))
    }
    fn serialize_char(self, _: char) -> Result<Given, Complaint> {
        Ok(Given::Other)
    }
    fn serialize_str(self, v: &str) -> Result<Given, Complaint> {
        self.env.point();
        let s = v.to_string();
        self.env.point();
        Ok(Given::Text(s))
    }
    fn serialize_bytes(self, _: &[u8]) -> Result<Given, Complaint> {
        Ok(Given::Other)
    }
    fn serialize_none(self) -> Result<Given, Complaint> {
        self.env.point();
        Ok(Given::Nothing)
    }
    fn serialize_some<T: ?Sized + sser::Serialize>(self, v: &T) -> Result<Given, Complaint> {
        self.env.point();
        v.serialize(self).map(|g| Given::Some(Box::new(g)))
    }
    fn serialize_unit(self) -> Result<Given, Complaint> {
        Ok(Given::Other)
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<Given, Complaint> {
        Ok(Given::Other)
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<Given, Complaint> {
        Ok(Given::Other)
    }
    fn serialize_newtype_struct<T: ?Sized + sser::Serialize>(self, _: &'static str, _: &T) -> Result<Given, Complaint> {
        Ok(Given::Other)
    }
    fn serialize_newtype_variant<T: ?Sized + sser::Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<Given, Complaint> {
        Ok(Given::Other)
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, Complaint> {
        Err(sser::Error::custom("sequence"))
    }
    fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, Complaint> {
        Err(sser::Error::custom("tuple"))
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, Complaint> {
        Err(sser::Error::custom("tuple"))
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, Complaint> {
        Err(sser::Error::custom("variant"))
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, Complaint> {
        Err(sser::Error::custom("map"))
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, Complaint> {
        Err(sser::Error::custom("struct"))
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, Complaint> {
        Err(sser::Error::custom("variant"))
    }
    fn collect_str<T: ?Sized + fmt::Display>(self, v: &T) -> Result<Given, Complaint> {
        let mut s = Sink { env: self.env, got: String::new(), room: usize::MAX };
        write!(s, "{v}").map_err(sser::Error::custom)?;
        Ok(Given::Text(s.got))
    }
}

struct De<'e, 'a> {
    env: &'e Env<'a>,
    t: &'e Tk,
    human: bool,
}
struct One<'e, 'a>(&'e Env<'a>, Option<(&'e str, &'e str)>, &'e str);
impl<'de> MapAccess<'de> for One<'_, '_> {
    type Error = Complaint;
    fn next_key_seed<K: sde::DeserializeSeed<'de>>(&mut self, k: K) -> Result<Option<K::Value>, Complaint> {
        self.0.point();
        match self.1.take() {
            Some((key, v)) => {
                self.2 = v;
                k.deserialize(key.into_deserializer()).map(Some)
            }
            None => Ok(None),
        }
    }
    fn next_value_seed<V: sde::DeserializeSeed<'de>>(&mut self, v: V) -> Result<V::Value, Complaint> {
        self.0.point();
        let r = v.deserialize(self.2.into_deserializer());
        self.0.point();
        r
    }
}
impl<'de> Deserializer<'de> for De<'_, '_> {
    type Error = Complaint;
    fn is_human_readable(&self) -> bool {
        self.env.point();
        self.human
    }
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Complaint> {
        self.env.point();
        let r = match self.t {
            Tk::Null | Tk::Missing => v.visit_unit(),
            Tk::Text(s) => {
                // transient: gone after the call
                let t = s.clone();
                v.visit_str(&t)
            }
            Tk::Int(i) => match (i64::try_from(*i), u64::try_from(*i)) {
                (Ok(i), _) => v.visit_i64(i),
                (_, Ok(u)) => v.visit_u64(u),
                _ => v.visit_i128(*i),
            },
            Tk::Big(u) => v.visit_u128(*u),
            Tk::Float(f) => v.visit_f64(*f),
            Tk::Blob(b) => v.visit_bytes(b),
            Tk::Junk(_) => v.visit_bool(true),
            Tk::Tagged(k, s) => v.visit_map(One(self.env, Some((k, s)), "")),
        };
        self.env.point();
        r
    }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Complaint> {
        self.env.point();
        match self.t {
            Tk::Null | Tk::Missing => v.visit_none(),
            _ => v.visit_some(self),
        }
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf unit unit_struct
        newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}

fn show_args(ty: Ty, v: i128) -> String {
    format!("{} raw {v}", ty.name())
}

/// One operation with whatever happens inside it.
fn task(env: &Env<'_>) -> Res {
    let cx = env.cx;
    let code = *env.cx.pick(env.codes);
    let ty = ty_of(code);
    let v = env.val(ty);
    cx.op();
    match cx.below(10) {
        0 | 1 => {
            let op = gen::op(cx, ty);
            let (a, b) = (v, env.val(ty));
            // operands seen before matter more here than shaped ones
            let s = if cx.chance(1, 2) { gen::shape(cx, ty, op, a, b) } else { gen::shape(&Cx::replay(vec![]), ty, op, a, b) };
            let (a, b) = (s.a.filter(|_| cx.chance(1, 2)).unwrap_or(a), s.b.filter(|_| cx.chance(1, 2)).unwrap_or(b));
            let want = expect(ty, op, s.k, a, b, &s.text);
            if matches!(want, Expect::Undefined) {
                return Ok(());
            }
            let what = format!("{} {} k={} a={a} b={b} text={:?}", ty.name(), op_name(op), s.k, String::from_utf8_lossy(&s.text));
            let go = || fxsurface::call(fxsurface::Args { op, ty: code, k: s.k, a, b, text: &s.text });
            let Some(mut o) = env.attempt(&what, go)? else { return Ok(()) };
            if op == CMP {
                o.w &= 0x17 | 8 * (a == b) as i64;
            }
            cx.event(format!("{what} -> {} {}", o.status, o.v));
            if !accepts(ty, &want, &o) {
                return viol("wrong-answer", format!("{what}: answered {o:?}, law {want:?}"));
            }
        }
        2 | 3 => {
            let text = ty.display(v);
            let w = env.val(ty);
            let other = ty.display(w);
            let form = cx.below(3);
            let full = match form {
                0 => text.clone(),
                1 => format!("{text} and {other}"),
                _ => format!("Some({text})"),
            };
            let room = if cx.chance(1, 4) { cx.usize(full.len() + 1) } else { usize::MAX };
            let mut s = Sink { env, got: String::new(), room };
            macro_rules! go {
                ($i:ident, $p:ident) => {{
                    let f = FixedPoint::<$i, $p>::from_bits(v as $i);
                    let g = FixedPoint::<$i, $p>::from_bits(w as $i);
                    match form {
                        0 => write!(s, "{f}"),
                        1 => write!(s, "{f} and {g:?}"),
                        _ => write!(s, "{:?}", Some(f)),
                    }
                }};
            }
            let what = format!("writing {}", show_args(ty, v));
            let r = env.attempt(&what, || each_type!(code, go))?;
            cx.event(format!("{what} -> {r:?} {:?}", s.got));
            let ok = match r {
                Some(Ok(())) => s.got == full,
                Some(Err(_)) => room < full.len() && full.starts_with(&s.got),
                None => full.starts_with(&s.got),
            };
            if !ok {
                return viol("wrong-text", format!("{what}: the sink got {:?} ({r:?}), text {full:?}", s.got));
            }
        }
        4 => {
            let k = Kind { code, m: *cx.pick(&MODULES) };
            let v = if k.m.optional() && cx.chance(1, 4) { None } else { Some(v) };
            let human = cx.chance(1, 2);
            let what = format!("serializing {} {v:?} as {:?}, human-readable {human}", ty.name(), k.m);
            let Some(r) = env.attempt(&what, || ser(code, k.m, v, Ser { env, human }))? else { return Ok(()) };
            cx.event(format!("{what} -> {r:?}"));
            let plain = |g: &Given, v: i128| match (k.m.base(), g) {
                (Module::Default, Given::Text(t)) if human => *t == ty.display(v),
                (Module::Default, Given::Int(b, i)) if !human => *b == ty.bits && *i == v,
                (Module::Repr, Given::Int(b, i)) => *b == ty.bits && *i == v,
                (Module::Str, Given::Text(t)) => *t == ty.display(v),
                (Module::Float, Given::Float(f)) => ty.to_f64_ok(v, *f),
                _ => false,
            };
            let ok = match (&r, v) {
                (Ok(Given::Some(g)), Some(v)) if k.m.optional() => plain(g, v),
                (Ok(g), Some(v)) if !k.m.optional() => plain(g, v),
                (Ok(Given::Nothing), None) => true,
                _ => false,
            };
            if !ok {
                return viol("wrong-form", format!("{what}: the serializer got {r:?}"));
            }
        }
        5 | 6 => {
            let k = Kind { code, m: *cx.pick(&MODULES) };
            let human = cx.chance(1, 2);
            let t = if cx.chance(1, 2) { crate::delivery::tk(cx, k, human) } else {
                match k.m.base() {
                    Module::Default if human => Tk::Text(ty.display(v)),
                    Module::Str => Tk::Text(ty.display(v)),
                    Module::Float => Tk::Float(v as f64 / ty.coef() as f64),
                    _ => Tk::Int(v),
                }
            };
            let Some(w) = want(k, &t, human) else { return Ok(()) };
            let what = format!("deserializing {} {:?} from {t:?}, human-readable {human}", ty.name(), k.m);
            let Some(r) = env.attempt(&what, || de(code, k.m, De { env, t: &t, human }))? else { return Ok(()) };
            let r = r.map_err(|e| e.0);
            cx.event(format!("{what} -> {r:?}"));
            if !meets(ty, &w, &r) {
                return viol("wrong-amount", format!("{what}: got {r:?}, required {w:?}"));
            }
        }
        7 => {
            let form = cx.below(4);
            let le = v.to_le_bytes();
            let full = le[..ty.bits as usize / 8].to_vec();
            let comp = compact(v as u128 & (u128::MAX >> (128 - ty.bits)));
            let bytes = match form {
                0 => full,
                1 => comp,
                2 => [vec![1], full].concat(),
                _ => [full, comp].concat(),
            };
            let what = format!("SCALE form {form} of {}", show_args(ty, v));
            if cx.chance(1, 2) {
                macro_rules! go {
                    ($i:ident, $p:ident) => {{
                        let f = FixedPoint::<$i, $p>::from_bits(v as $i);
                        let mut w = Writer(env, vec![]);
                        match form {
                            0 => f.encode_to(&mut w),
                            1 => Compact(f).encode_to(&mut w),
                            2 => Some(f).encode_to(&mut w),
                            _ => (f, Compact(f)).encode_to(&mut w),
                        }
                        w.1
                    }};
                }
                let Some(got) = env.attempt(&what, || each_type!(code, go))? else { return Ok(()) };
                cx.event(format!("{what} -> {got:?}"));
                if got != bytes {
                    return viol("wrong-bytes", format!("{what}: written {got:?}, required {bytes:?}"));
                }
            } else {
                let cut = if cx.chance(1, 4) { cx.usize(bytes.len()) } else { bytes.len() };
                macro_rules! go {
                    ($i:ident, $p:ident) => {{
                        type F = FixedPoint<$i, $p>;
                        let mut i = Reader(env, bytes[..cut].to_vec(), 0);
                        let r = match form {
                            0 => F::decode(&mut i),
                            1 => Compact::<F>::decode(&mut i).map(|c| c.into()),
                            2 => Option::<F>::decode(&mut i).map(|o| o.unwrap_or(F::from_bits(0))),
                            _ => <(F, Compact<F>)>::decode(&mut i).map(|(a, b)| if a == b.0 { a } else { F::from_bits(!a.into_bits()) }),
                        };
                        r.ok().map(|f| (f.into_bits() as i128, i.2))
                    }};
                }
                let Some(got) = env.attempt(&what, || each_type!(code, go))? else { return Ok(()) };
                cx.event(format!("{what} cut at {cut} -> {got:?}"));
                if got != (if cut < bytes.len() { None } else { Some((v, cut)) }) {
                    return viol("wrong-amount", format!("{what} cut at {cut} of {}: read {got:?}", bytes.len()));
                }
            }
        }
        8 => {
            let human = cx.chance(1, 2);
            let what = format!("{} of {}", if human { "JSON" } else { "bincode" }, show_args(ty, v));
            let le = v.to_le_bytes();
            let bytes = if human { format!("\"{}\"", ty.display(v)).into_bytes() } else { le[..ty.bits as usize / 8].to_vec() };
            macro_rules! put {
                ($i:ident, $p:ident) => {{
                    let f = FixedPoint::<$i, $p>::from_bits(v as $i);
                    let mut w = Writer(env, vec![]);
                    let ok = if human { serde_json::to_writer(&mut w, &f).is_ok() } else { bincode::serialize_into(&mut w, &f).is_ok() };
                    ok.then_some(w.1)
                }};
            }
            macro_rules! get {
                ($i:ident, $p:ident) => {{
                    type F = FixedPoint<$i, $p>;
                    let r = Reader(env, bytes.clone(), 0);
                    let f: Option<F> = if human { serde_json::from_reader(r).ok() } else { bincode::deserialize_from(r).ok() };
                    f.map(|f| f.into_bits() as i128)
                }};
            }
            if cx.chance(1, 2) {
                let Some(got) = env.attempt(&what, || each_type!(code, put))? else { return Ok(()) };
                cx.event(format!("{what} -> {got:?}"));
                if got.as_ref() != Some(&bytes) {
                    return viol("wrong-bytes", format!("{what}: written {got:?}, required {bytes:?}"));
                }
            } else {
                let Some(got) = env.attempt(&what, || each_type!(code, get))? else { return Ok(()) };
                cx.event(format!("{what} -> {got:?}"));
                if got != Some(v) {
                    return viol("wrong-amount", format!("{what}: read {got:?}"));
                }
            }
        }
        _ => {
            // equal amounts hash alike, whatever happens in between
            let what = format!("hashing {}", show_args(ty, v));
            let one = |env: &Env<'_>| {
                macro_rules! go {
                    ($i:ident, $p:ident) => {{
                        let mut h = PointHasher(env, vec![]);
                        FixedPoint::<$i, $p>::from_bits(v as $i).hash(&mut h);
                        h.1
                    }};
                }
                env.attempt(&what, || each_type!(code, go))
            };
            let (a, b) = (one(env)?, one(env)?);
            if let (Some(a), Some(b)) = (a, b) {
                cx.event(format!("{what} -> {a:?}"));
                if a != b {
                    return viol("wrong-hash", format!("{what}: {a:?}, then {b:?}"));
                }
            }
        }
    }
    Ok(())
}

pub fn run(cx: &Cx) -> Res {
    // few values and types per run: what an earlier operation left behind must meet a later one
    let n = 1 + cx.usize(3);
    let first = *cx.pick(TYPES);
    let mut codes = vec![first];
    for _ in 1..n {
        let same: Vec<u32> = TYPES.iter().copied().filter(|c| c / 64 == first / 64).collect();
        codes.push(if cx.chance(1, 2) { *cx.pick(&same) } else { *cx.pick(TYPES) });
    }
    let pool: Vec<i128> = (0..1 + cx.usize(5)).map(|_| gen::raw(cx, ty_of(first))).collect();
    let threads = 1 + cx.usize(3);
    let knob = |hi: u64| if cx.chance(2, 3) { 1 + cx.below(hi) } else { 0 };
    let (nest, yields, crash) = (knob(250), knob(400), knob(60));
    let tasks: Vec<usize> = (0..threads).map(|_| 2 + cx.usize(8)).collect();
    cx.event(format!("{threads} threads, tasks {tasks:?}, types {codes:?}, values {pool:?}"));
    let baton = Baton { turn: Mutex::new((usize::MAX, vec![true; threads])), cv: Condvar::new(), stop: AtomicBool::new(false) };
    let script = |me: usize| -> Res {
        baton.start(me);
        let env = Env { cx, baton: &baton, me, threads, depth: Cell::new(0), found: RefCell::new(None), pool: &pool, codes: &codes, nest, yields, crash };
        ENV.with(|e| e.set(&env as *const Env<'_> as *const ()));
        let mut r = Ok(());
        for _ in 0..tasks[me] {
            if baton.stop.load(Ordering::Relaxed) {
                break;
            }
            r = task(&env);
            if r.is_err() {
                baton.stop.store(true, Ordering::Relaxed);
                break;
            }
            if threads > 1 && cx.chance(1, 2) {
                baton.switch(me, cx);
            }
        }
        ENV.with(|e| e.set(std::ptr::null()));
        baton.finish(me, cx);
        r
    };
    if threads == 1 {
        baton.turn.lock().unwrap().0 = 0;
        return script(0);
    }
    std::thread::scope(|s| {
        let script = &script;
        let hs: Vec<_> = (0..threads).map(|i| s.spawn(move || script(i))).collect();
        let mut g = baton.turn.lock().unwrap();
        g.0 = baton.next(cx, &g.1);
        drop(g);
        baton.cv.notify_all();
        let rs: Vec<Res> = hs.into_iter().map(|h| h.join().expect("harness: thread")).collect();
        rs.into_iter().collect::<Result<Vec<()>, Viol>>().map(|_| ())
    })
}
