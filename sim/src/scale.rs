//! C03: streams of SCALE records over torn, short and failing input.
use crate::codec::{Bytes, Plan, PlanReader, Stats};
use crate::core::*;
use crate::docs::{ty_of, TYPES};
use crate::each_type;
use crate::env::damage;
use crate::gen;
use fixnum::{typenum::*, FixedPoint};
use fxmodel::compact;
use parity_scale_codec::{Compact, CompactRef, Decode, DecodeAll, Encode, Input, IoReader, Output};
use std::collections::{BTreeMap, VecDeque};

trait Lay: Copy {
    type U;
    fn u(self) -> Self::U;
    fn back(u: Self::U) -> i128;
}
macro_rules! lay {
    ($($i:ident $u:ident)*) => { $(impl Lay for $i {
        type U = $u;
        fn u(self) -> $u { self as $u }
        fn back(u: $u) -> i128 { u as $i as i128 }
    })* };
}
lay!(i16 u16 i32 u32 i64 u64 i128 u128);

#[derive(Clone, Copy, PartialEq, Debug)]
enum Form {
    Plain,
    Compact,
    Option,
    Vec,
    CompactVec,
    Tuple,
    Array,
    OptCompact,
    Result,
    Boxed,
    Deque,
    Map,
}
const FORMS: [Form; 12] = [Form::Plain, Form::Compact, Form::Option, Form::Vec, Form::CompactVec, Form::Tuple, Form::Array, Form::OptCompact, Form::Result,
    Form::Boxed, Form::Deque, Form::Map];

#[derive(Clone, Debug)]
struct Item {
    code: u32,
    form: Form,
    /// Amounts; `None` only in optional positions.
    vals: Vec<Option<i128>>,
}

fn item(cx: &Cx) -> Item {
    let code = *cx.pick(TYPES);
    let form = *cx.pick(&FORMS);
    let n = match form {
        Form::Plain | Form::Compact | Form::Option | Form::OptCompact | Form::Result | Form::Boxed => 1,
        Form::Tuple | Form::Array => 3,
        Form::Vec | Form::CompactVec | Form::Deque | Form::Map => {
            if cx.chance(1, 8) {
                64 + cx.usize(6) // two-byte length
            } else {
                cx.usize(5)
            }
        }
    };
    let ty = ty_of(code);
    let vals = (0..n)
        .map(|i| {
            let opt = matches!(form, Form::Option | Form::OptCompact | Form::Result) || (form == Form::Tuple && i == 2);
            if opt && cx.chance(1, 3) {
                None
            } else if cx.chance(1, 2) {
                Some(gen::raw(cx, ty))
            } else {
                // around the size classes of the compact form
                let e = *cx.pick(&[6u32, 14, 30, 32, 40, 48, 56, 64, 72, 80, 96, 104, 112, 120, 127]);
                let v = (1i128 << e).wrapping_add(cx.range(-2, 2) as i128);
                let m = if ty.bits == 128 { v } else { (v << (128 - ty.bits)) >> (128 - ty.bits) };
                Some(m)
            }
        })
        .collect();
    Item { code, form, vals }
}

/// Written from the format's definition.
fn spec(it: &Item) -> Vec<u8> {
    let bits = it.code / 64;
    let le = |v: i128| v.to_le_bytes()[..bits as usize / 8].to_vec();
    let com = |v: i128| compact(if bits == 128 { v as u128 } else { v as u128 & ((1u128 << bits) - 1) });
    let v = &it.vals;
    let mut o = vec![];
    match it.form {
        Form::Plain | Form::Boxed => o.extend(le(v[0].unwrap())),
        Form::Compact => o.extend(com(v[0].unwrap())),
        Form::Option | Form::OptCompact => match v[0] {
            None => o.push(0),
            Some(x) => {
                o.push(1);
                o.extend(if it.form == Form::Option { le(x) } else { com(x) });
            }
        },
        Form::Result => match v[0] {
            Some(x) => {
                o.push(0);
                o.extend(le(x));
            }
            None => o.push(1),
        },
        Form::Vec | Form::CompactVec | Form::Deque | Form::Map => {
            o.extend(compact(v.len() as u128));
            for (i, x) in v.iter().enumerate() {
                if it.form == Form::Map {
                    o.push(i as u8);
                }
                o.extend(if it.form != Form::CompactVec { le(x.unwrap()) } else { com(x.unwrap()) });
            }
        }
        Form::Array => v.iter().for_each(|x| o.extend(le(x.unwrap()))),
        Form::Tuple => {
            o.extend(le(v[0].unwrap()));
            o.extend(com(v[1].unwrap()));
            match v[2] {
                None => o.push(0),
                Some(x) => {
                    o.push(1);
                    o.extend(le(x));
                }
            }
        }
    }
    o
}

/// How the encoder is asked.
fn encode_to<O: Output>(it: &Item, how: u64, out: &mut O) {
    macro_rules! go {
        ($i:ident, $p:ident) => {{
            type F = FixedPoint<$i, $p>;
            let f = |v: Option<i128>| F::from_bits(v.unwrap() as $i);
            let c = |v: Option<i128>| Compact(f(v));
            let o = |v: Option<i128>| v.map(|_| f(v));
            let v = &it.vals;
            // (a codec may know the size of all amounts, but then it must be right)
            let size = it.code as usize / 64 / 8;
            assert!(F::encoded_fixed_size().map_or(true, |n| n == size), "encoded_fixed_size");
            assert!(Compact::<F>::encoded_fixed_size().is_none(), "encoded_fixed_size");
            macro_rules! put {
                ($x:expr) => {{
                    let x = $x;
                    match how {
                        0 => x.encode_to(out),
                        1 => out.write(&x.encode()),
                        2 => x.using_encoded(|b| out.write(b)),
                        _ => {
                            let b = x.encode();
                            assert_eq!(x.encoded_size(), b.len(), "encoded_size");
                            out.write(&b)
                        }
                    }
                }};
            }
            match it.form {
                Form::Plain => put!(f(v[0])),
                Form::Compact if how == 2 => out.write(&CompactRef(&f(v[0])).encode()),
                Form::Compact => put!(c(v[0])),
                Form::Boxed => put!(Box::new(f(v[0]))),
                Form::Deque => {
                    // (wrapped around in its ring)
                    let mut d: VecDeque<F> = v.iter().skip(v.len() / 2).map(|x| f(*x)).collect();
                    v.iter().take(v.len() / 2).rev().for_each(|x| d.push_front(f(*x)));
                    put!(d)
                }
                Form::Map => put!(v.iter().enumerate().map(|(i, x)| (i as u8, f(*x))).collect::<BTreeMap<u8, F>>()),
                Form::Option => put!(o(v[0])),
                Form::OptCompact => put!(v[0].map(|_| c(v[0]))),
                Form::Result => put!(o(v[0]).ok_or(())),
                Form::Vec => put!(v.iter().map(|x| f(*x)).collect::<Vec<F>>()),
                Form::CompactVec => put!(v.iter().map(|x| c(*x)).collect::<Vec<Compact<F>>>()),
                Form::Array => put!([f(v[0]), f(v[1]), f(v[2])]),
                Form::Tuple => put!((f(v[0]), c(v[1]), o(v[2]))),
            }
        }};
    }
    each_type!(it.code, go)
}

type Vals = Result<Vec<Option<i128>>, ()>;

fn decode<I: Input>(real: bool, code: u32, form: Form, skip: bool, input: &mut I) -> Vals {
    macro_rules! body {
        ($t:ty, $back:expr) => {{
            type T = $t;
            let back = $back;
            if skip {
                // read over it
                let r = match form {
                    Form::Plain => T::skip(input),
                    Form::Compact => Compact::<T>::skip(input),
                    Form::Option => Option::<T>::skip(input),
                    Form::OptCompact => Option::<Compact<T>>::skip(input),
                    Form::Result => Result::<T, ()>::skip(input),
                    Form::Vec => Vec::<T>::skip(input),
                    Form::CompactVec => Vec::<Compact<T>>::skip(input),
                    Form::Array => <[T; 3]>::skip(input),
                    Form::Boxed => Box::<T>::skip(input),
                    Form::Deque => VecDeque::<T>::skip(input),
                    Form::Map => BTreeMap::<u8, T>::skip(input),
                    Form::Tuple => <(T, Compact<T>, Option<T>)>::skip(input),
                };
                return r.map(|()| vec![]).map_err(|_| ());
            }
            let e = |_| ();
            match form {
                Form::Plain => T::decode(input).map(|x| vec![Some(back(x))]).map_err(e),
                Form::Compact => Compact::<T>::decode(input).map(|x| vec![Some(back(x.into()))]).map_err(e),
                Form::Option => Option::<T>::decode(input).map(|x| vec![x.map(back)]).map_err(e),
                Form::OptCompact => Option::<Compact<T>>::decode(input).map(|x| vec![x.map(|x| back(x.into()))]).map_err(e),
                Form::Result => Result::<T, ()>::decode(input).map(|x| vec![x.ok().map(back)]).map_err(e),
                Form::Vec => Vec::<T>::decode(input).map(|x| x.into_iter().map(|x| Some(back(x))).collect()).map_err(e),
                Form::CompactVec => Vec::<Compact<T>>::decode(input).map(|x| x.into_iter().map(|x| Some(back(x.into()))).collect()).map_err(e),
                Form::Boxed => Box::<T>::decode(input).map(|x| vec![Some(back(*x))]).map_err(e),
                Form::Deque => VecDeque::<T>::decode(input).map(|x| x.into_iter().map(|x| Some(back(x))).collect()).map_err(e),
                Form::Map => BTreeMap::<u8, T>::decode(input).map(|x| x.into_values().map(|x| Some(back(x))).collect()).map_err(e),
                Form::Array => <[T; 3]>::decode(input).map(|x| x.into_iter().map(|x| Some(back(x))).collect()).map_err(e),
                Form::Tuple => <(T, Compact<T>, Option<T>)>::decode(input)
                    .map(|(a, b, c)| vec![Some(back(a)), Some(back(b.into())), c.map(back)])
                    .map_err(e),
            }
        }};
    }
    if real {
        macro_rules! go {
            ($i:ident, $p:ident) => {
                body!(FixedPoint<$i, $p>, |x: FixedPoint<$i, $p>| x.into_bits() as i128)
            };
        }
        each_type!(code, go)
    } else {
        macro_rules! go {
            ($i:ident, $p:ident) => {
                body!(<$i as Lay>::U, |x: <$i as Lay>::U| <$i as Lay>::back(x))
            };
        }
        each_type!(code, go)
    }
}

/// An input that fails at a byte; may or may not know how much remains.
struct SimInput<'a> {
    data: &'a [u8],
    pos: usize,
    fail_at: Option<usize>,
    knows: bool,
}
impl Input for SimInput<'_> {
    fn remaining_len(&mut self) -> Result<Option<usize>, parity_scale_codec::Error> {
        Ok(self.knows.then_some(self.data.len() - self.pos))
    }
    fn read(&mut self, into: &mut [u8]) -> Result<(), parity_scale_codec::Error> {
        let end = self.pos + into.len();
        if end > self.data.len() {
            return Err("input ends".into());
        }
        if self.fail_at.map_or(false, |f| end > f) {
            return Err("device failure".into());
        }
        into.copy_from_slice(&self.data[self.pos..end]);
        self.pos = end;
        Ok(())
    }
}

#[derive(Clone, Copy, Debug)]
enum Via {
    Slice,
    Io,
    Sim(bool),
}

/// (values, consumed) per record until the first error.
fn read_all(real: bool, via: Via, data: &[u8], plan: &Plan, items: &[Item], skip: &[bool], stats: &Stats) -> Vec<(Vals, usize)> {
    let mut out = vec![];
    macro_rules! each {
        ($input:expr, $pos:expr) => {
            for (it, s) in items.iter().zip(skip) {
                let r = decode(real, it.code, it.form, *s, $input);
                let stop = r.is_err();
                out.push((r, $pos));
                if stop {
                    break;
                }
            }
        };
    }
    match via {
        Via::Slice => {
            let mut s = data;
            each!(&mut s, data.len() - s.len())
        }
        Via::Io => {
            let mut rd = IoReader(PlanReader::new(data, plan));
            each!(&mut rd, rd.0.pos);
            stats.short.set(stats.short.get() + rd.0.short);
            stats.interrupted.set(stats.interrupted.get() + rd.0.interrupted);
            stats.failed.set(stats.failed.get() | rd.0.failed);
        }
        Via::Sim(knows) => {
            let mut s = SimInput { data, pos: 0, fail_at: plan.fail_at, knows };
            each!(&mut s, s.pos);
            if plan.fail_at.is_some() && out.last().map_or(false, |o: &(Vals, usize)| o.0.is_err()) {
                stats.failed.set(true);
            }
        }
    }
    out
}

/// An output that is torn down at a byte.
struct TornOutput {
    data: Vec<u8>,
    at: Option<usize>,
}
impl Output for TornOutput {
    fn write(&mut self, b: &[u8]) {
        for x in b {
            if self.at == Some(self.data.len()) {
                std::panic::panic_any(Crash);
            }
            self.data.push(*x);
        }
    }
}

pub fn run(cx: &Cx) -> Res {
    let n = 1 + cx.usize(6);
    let mut items = vec![];
    let mut stream = vec![];
    let mut ends = vec![];
    for _ in 0..n {
        let it = item(cx);
        let want = spec(&it);
        // the writer may be torn down in the middle; then it writes the record again
        for attempt in 0..2 {
            let how = cx.below(4);
            let at = if attempt == 0 && cx.chance(1, 4) { Some(cx.usize(want.len() + 1)) } else { None };
            let mut o = TornOutput { data: vec![], at };
            let done = crashable("encoding", || encode_to(&it, how, &mut o))?;
            cx.op();
            match done {
                Some(()) if o.data == want => break,
                None if want.starts_with(&o.data) => cx.fault("crash-in-write"),
                _ => return viol("encoding", format!("{it:?} via {how}: wrote {:?}, SCALE of the unsigned integers is {:?}", Bytes(&o.data), Bytes(&want))),
            }
        }
        cx.event(format!("{it:?} {:?}", Bytes(&want)));
        stream.extend_from_slice(&want);
        ends.push(stream.len());
        items.push(it);
    }
    for _ in 0..2 + cx.usize(5) {
        let mut data = stream.clone();
        let mut plan = Plan::benign(cx);
        plan.buffer = 0;
        let mut via = *cx.pick(&[Via::Slice, Via::Io, Via::Sim(true), Via::Sim(false)]);
        let intact = match cx.below(5) {
            0 => n,
            1 => {
                let c = cx.usize(data.len() + 1);
                data.truncate(c);
                cx.fault("truncated");
                ends.iter().filter(|e| **e <= c).count()
            }
            2 => {
                let f = cx.usize(data.len() + 1);
                plan.fail_at = Some(f);
                if matches!(via, Via::Slice) {
                    via = Via::Io;
                }
                ends.iter().filter(|e| **e <= f).count()
            }
            3 => {
                // noise follows the stream: nothing of it may be touched
                for _ in 0..cx.usize(5) {
                    data.push(cx.below(256) as u8);
                }
                n
            }
            _ => {
                let from = cx.usize(n);
                let start = if from == 0 { 0 } else { ends[from - 1] };
                let mut tail = data.split_off(start);
                damage(cx, &mut tail);
                data.extend_from_slice(&tail);
                from
            }
        };
        let skip: Vec<bool> = (0..n).map(|_| cx.chance(1, 8)).collect();
        let nil = Stats::new();
        let want = calm("plain integers", || read_all(false, via, &data, &plan, &items, &skip, &nil))?;
        let stats = Stats::new();
        let what = || format!("{via:?} of {:?} plan {plan:?}", Bytes(&data));
        let got = calm(&what(), || read_all(true, via, &data, &plan, &items, &skip, &stats))?;
        stats.book(cx);
        cx.op();
        cx.event(format!("{via:?}: {} records, {intact} intact, last {:?}", got.len(), got.last().map(|g| g.0.is_ok())));
        for i in 0..want.len().max(got.len()) {
            let (Some(w), Some(g)) = (want.get(i), got.get(i)) else {
                return viol("stream", format!("{}: {} records, plain integers give {}", what(), got.len(), want.len()));
            };
            if g.0 != w.0 {
                return viol("decode", format!("{}: record {i} {:?} {}: {:?}, the bytes denote {:?}", what(), items[i].form, ty_of(items[i].code).name(), g.0, w.0));
            }
            if g.0.is_ok() && g.1 != w.1 {
                return viol("framing", format!("{}: record {i} {:?}: stream at {}, must be at {}", what(), items[i].form, g.1, w.1));
            }
        }
        for i in 0..intact {
            match got.get(i) {
                Some((Ok(v), pos)) if (skip[i] || *v == items[i].vals) && *pos == ends[i] => {}
                g => return viol("lost", format!("{}: whole record {i} {:?} comes back as {g:?}", what(), items[i])),
            }
        }
        if cx.chance(1, 4) {
            // a single record that must fill its buffer exactly
            let i = cx.usize(n);
            let mut b = spec(&items[i]);
            if cx.chance(1, 2) {
                b.push(cx.below(256) as u8);
            }
            exactly(&items[i], &b)?;
        }
    }
    cx.lock().time_us += 1000 * n as u64;
    Ok(())
}

fn exactly(it: &Item, b: &[u8]) -> Res {
    macro_rules! go {
        ($i:ident, $p:ident) => {{
            let r = calm("decode_all", || <FixedPoint<$i, $p>>::decode_all(&mut &b[..]).map(|x| x.into_bits() as i128).ok())?;
            let w = <$i as Lay>::U::decode_all(&mut &b[..]).map(<$i as Lay>::back).ok();
            let _ = <$i as Lay>::u;
            (r, w)
        }};
    }
    let (r, w) = each_type!(it.code, go);
    if r != w {
        return viol("decode", format!("decode_all of {:?}: {r:?}, plain integers give {w:?}", Bytes(b)));
    }
    Ok(())
}
