//! C05, C07, C08, C09 and the in-process parts of C06 and C14: documents of amounts over
//! simulated transports and storage.
use crate::codec::*;
use crate::core::*;
use crate::docs::*;
use crate::env::{damage, Disk, Faults, SimWriter, MARK};

struct Record {
    rec: Rec,
    vals: Vec<Option<i128>>,
    children: u32,
    bytes: Vec<u8>,
}
impl Record {
    fn doc(&self, real: bool) -> Doc<'_> {
        Doc { kinds: &self.rec.kinds, vals: &self.vals, shape: self.rec.shape, children: self.children, real }
    }
    fn name(&self) -> String {
        self.rec.kinds.iter().zip(&self.vals).map(|(k, v)| format!("{} {:?}={v:?}", k.ty().name(), k.m)).collect::<Vec<_>>().join(", ")
    }
}

/// A record the format can carry, with its canonical bytes (checked against plain values).
fn record(cx: &Cx, f: Format) -> Res<Record> {
    let shape = match f {
        Format::Xml if cx.chance(1, 6) => Shape::Variant,
        Format::Xml => Shape::Struct,
        Format::Toml => *cx.pick(&[Shape::Struct, Shape::Map, Shape::List]),
        Format::Bin | Format::BinVar => *cx.pick(&[Shape::Tuple, Shape::Single, Shape::Struct, Shape::List, Shape::Keyed, Shape::Variant]),
        _ => *cx.pick(&[Shape::Struct, Shape::Tuple, Shape::Single, Shape::Map, Shape::List, Shape::Keyed, Shape::Variant]),
    };
    let mut kinds = kinds(cx, if shape == Shape::Single { 1 } else { 5 });
    if f == Format::Toml {
        // TOML has neither wider integers nor absent elements
        for k in &mut kinds {
            if k.code / 64 == 128 && k.m.base() == Module::Repr || shape == Shape::List {
                k.m = *cx.pick(&[Module::Default, Module::Str, Module::Float]);
            }
        }
    }
    let kinds = kinds;
    let mut vals = vals(cx, &kinds);
    if shape == Shape::Keyed && f.human() {
        // an absent amount is no key
        for i in (0..kinds.len()).step_by(2) {
            vals[i].get_or_insert(0);
        }
    }
    let children = if f == Format::Xml || shape == Shape::Variant { cx.below(64) as u32 } else { 0 };
    if f == Format::Xml && shape == Shape::Variant {
        vals[children as usize % kinds.len()].get_or_insert(0); // an empty element is no absent amount
    }
    let mut r = Record { rec: Rec { kinds, shape }, vals, children, bytes: vec![] };
    let plain = to_vec(f, &r.doc(false)).map_err(|e| Viol { class: "harness".into(), msg: format!("plain encode: {e}") })?;
    let real = calm("encoding", || to_vec(f, &r.doc(true)))?;
    match real {
        Ok(b) if b == plain => r.bytes = b,
        Ok(b) => return viol("encoding", format!("{f:?} of {}: wrote {:?}, documented {:?}", r.name(), Bytes(&b), Bytes(&plain))),
        Err(e) => return viol("encoding", format!("{f:?} of {}: {e}", r.name())),
    }
    for (k, v) in r.rec.kinds.iter().zip(&r.vals) {
        if let (Module::Float, Some(v)) = (k.m.base(), v) {
            let x = to_f64(k.code, *v);
            if !k.ty().to_f64_ok(*v, x) {
                return viol("float", format!("{} {v} as float is {x:?}", k.ty().name()));
            }
        }
    }
    cx.op();
    Ok(r)
}

/// Did the decoded record bring back what was stored?
fn recovered(r: &Record, d: &Decoded, j: Judged) -> Res {
    if j != Judged::Complete {
        // only floats of amounts at the very edge of the range may be refused
        let edge = j == Judged::Rejected && r.rec.kinds.iter().zip(&r.vals).any(|(k, v)| k.m.base() == Module::Float && v.map_or(false, |v| near_edge(*k, v)));
        if edge {
            return Ok(());
        }
        return viol("lost", format!("stored record ({}) is not recovered from {:?}: {:?}", r.name(), Bytes(&r.bytes), d.end));
    }
    for (i, g) in &d.fields {
        let Got::Val(got) = g else { unreachable!() };
        let (k, want) = (r.rec.kinds[*i], r.vals[*i]);
        let ok = match (want, got) {
            (None, None) => true,
            (Some(w), Some(g)) if k.m.base() == Module::Float => close(k, w, *g),
            (Some(w), Some(g)) => w == *g,
            _ => false,
        };
        if !ok {
            return viol("changed", format!("field {i} of ({}) comes back as {got:?}", r.name()));
        }
    }
    Ok(())
}
/// XML cannot tell an absent amount from an empty element.
fn representable(r: &Record) -> bool {
    r.rec.shape == Shape::Variant || r.vals.iter().enumerate().all(|(i, v)| v.is_some() || r.children & 1 << i == 0)
}
fn all_recovered(route: Route, all: &[Record], got: &[(Decoded, Judged)]) -> Res {
    for (i, r) in all.iter().enumerate() {
        if !representable(r) {
            return Ok(());
        }
        let Some((d, j)) = got.get(i) else {
            return viol("retry", format!("{route:?}: only {} of {} records: {:?}", got.len(), all.len(), got.last()));
        };
        recovered(r, d, *j)?;
        if *j == Judged::Rejected {
            return Ok(()); // a float at the very edge; the stream ends here for this reader
        }
    }
    Ok(())
}
fn near_edge(k: Kind, v: i128) -> bool {
    let ty = k.ty();
    let m = ty.max() as f64;
    (v as f64).abs() >= m * (1.0 - 4e-15) - 1.0
}
/// Float representation: 15 significant digits; up to 15 digits of ordinary size exactly (as long
/// as the fraction has fewer than 2^53 units).
fn close(k: Kind, want: i128, got: i128) -> bool {
    let mut s = want;
    while s != 0 && s % 10 == 0 {
        s /= 10;
    }
    let x = want as f64 / k.ty().coef() as f64;
    // A fraction of 2^53 units or more is itself rounded on the way to the float. That matters where
    // the float's own error is next to the step of the digits kept: below one and right above four.
    let twice = (want % k.ty().coef()).unsigned_abs() >= 1 << 53 && (x.abs() < 1.0 || (4.0..4.6).contains(&x.abs()));
    if s.unsigned_abs() < 1_000_000_000_000_000 && k.ty().prec <= 18 && x.abs() < 9e15 && (x.abs() > 1e-3 || x == 0.0) && !twice {
        return want == got;
    }
    let d = fxmodel::Z::new(want).sub(fxmodel::Z::new(got)).abs();
    // |d| <= 1 + 2.2e-15 |want|
    d.mul(fxmodel::Z::new(10i128.pow(16))) <= fxmodel::Z::new(10i128.pow(16)).add(fxmodel::Z::new(want).abs().mul(fxmodel::Z::new(22)))
}

fn recs(r: &[Record]) -> Vec<Rec> {
    r.iter().map(|r| r.rec.clone()).collect()
}

/// Separator between records of a stream.
fn sep(f: Format) -> &'static [u8] {
    match f {
        Format::Json | Format::JsonPretty => b"\n",
        _ => b"",
    }
}

// ---------------------------------------------------------------------------------------------
// C07

pub fn transport(cx: &Cx) -> Res {
    let mut f = *cx.pick(&[Format::Json, Format::Cbor, Format::Bin, Format::Xml, Format::BinVar, Format::JsonPretty]);
    if f == Format::Xml && !cfg!(feature = "xml") {
        f = Format::Json;
    }
    let n = if f == Format::Xml { 1 } else { 1 + cx.usize(3) };
    let mut all = vec![];
    let mut stream = vec![];
    for _ in 0..n {
        let r = record(cx, f)?;
        cx.event(format!("{f:?} record {} bytes {:?}", r.name(), Bytes(&r.bytes)));
        stream.extend_from_slice(&r.bytes);
        stream.extend_from_slice(sep(f));
        all.push(r);
    }
    let rs = recs(&all);
    // --- the writing side
    for _ in 0..1 + cx.usize(3) {
        let r = &all[cx.usize(n)];
        write_attempt(cx, f, r)?;
    }
    // --- the reading side
    let route = Route::reader_of(f);
    for _ in 0..2 + cx.usize(5) {
        let mut data = stream.clone();
        let plan = match cx.below(4) {
            0 | 1 => Plan::failing(cx, data.len()),
            2 => {
                let c = cx.usize(data.len() + 1);
                data.truncate(c);
                cx.fault("premature-end");
                Plan::benign(cx)
            }
            _ => {
                // damage first: an amount may be unacceptable before the failure is met
                damage(cx, &mut data);
                Plan::failing(cx, data.len())
            }
        };
        let stats = Stats::new();
        let got = check(route, &data, &plan, &rs, &stats)?;
        stats.book(cx);
        cx.op();
        let last = got.last();
        cx.event(format!("read {route:?} cut {} fail {:?}: {} records, {:?}", data.len(), plan.fail_at, got.len(), last.map(|l| &l.0.end)));
        if let Some((d, Judged::FormatFailed)) = last {
            if stats.failed.get() {
                cx.probe("device-error-met");
                let e = d.end.as_ref().unwrap_err();
                let whole = format!("io:{:?}:", plan.kind);
                // a format may itself detect something else first (a cut token before the failure)
                if e.contains(MARK) && !(e.starts_with(&whole) && e.contains(&plan.mark())) {
                    return viol("failure-changed", format!("{route:?}: device failed with {whole}{} but {e} is reported", plan.mark()));
                }
            }
        }
        if cx.chance(1, 2) {
            // transient: the device works again
            let plan = Plan::benign(cx);
            let stats = Stats::new();
            let got = check(route, &stream, &plan, &rs, &stats)?;
            stats.book(cx);
            all_recovered(route, &all, &got)?;
            cx.probe("retried-after-failure");
        }
    }
    cx.lock().time_us += 1000 * n as u64;
    Ok(())
}

/// Encode into a device that fails: told so, prefix only, and the retry is whole.
fn write_attempt(cx: &Cx, f: Format, r: &Record) -> Res {
    let mut w = SimWriter::new(cx, Faults { short: cx.below(600), eintr: cx.below(200), ..Faults::NONE });
    match cx.below(4) {
        0 => {}
        1 => w.capacity = Some(cx.usize(r.bytes.len() + 2)),
        _ => w.fail_at = Some(cx.usize(r.bytes.len() + 1)),
    }
    let res = calm("encoding into a device", || encode(f, &r.doc(true), &mut w))?;
    cx.op();
    cx.event(format!("write {f:?}: {} of {} bytes, {res:?}", w.data.len(), r.bytes.len()));
    if !r.bytes.starts_with(&w.data) {
        return viol("torn-write", format!("{f:?} of ({}): device holds {:?}, not a prefix of {:?}", r.name(), Bytes(&w.data), Bytes(&r.bytes)));
    }
    match (&res, w.failed) {
        (Ok(()), None) if w.data == r.bytes => Ok(()),
        (Err(e), Some((k, n))) if *e == format!("io:{k:?}:{MARK}{n}.") || (e.starts_with(&format!("io:{k:?}:")) && e.contains(&format!("{MARK}{n}."))) => {
            cx.probe("write-failure-reported");
            let again = calm("retry", || to_vec(f, &r.doc(true)))?;
            if again.as_ref() != Ok(&r.bytes) {
                return viol("retry", format!("{f:?} of ({}): retry wrote {again:?}", r.name()));
            }
            Ok(())
        }
        _ => viol("write-failure-masked", format!("{f:?} of ({}): device failure {:?}, {} of {} bytes, reported {res:?}", r.name(), w.failed, w.data.len(), r.bytes.len())),
    }
}

// ---------------------------------------------------------------------------------------------
// C05 and C08: an append-only store of records on a disk that tears.

pub fn store(cx: &Cx, prop: u32) -> Res {
    let f = if prop == 5 {
        *cx.pick(&[Format::Json, Format::Json, Format::JsonPretty])
    } else {
        *cx.pick(&[Format::Bin, Format::Cbor, Format::BinVar])
    };
    let mut disk = Disk::default();
    const FILE: &str = "store";
    // records believed on disk, and how many of them are acknowledged
    let mut held: Vec<Record> = vec![];
    let mut acked = 0usize;
    let mut t = 0u64;
    let steps = 4 + cx.usize(14);
    let faulty = cx.chance(5, 6);
    for _ in 0..steps {
        t += 100 + cx.below(5_000);
        match cx.below(8) {
            0 if faulty => {
                cx.fault("crash");
                disk.crash(cx);
                cx.event(format!("t={t} crash: {} B left, {} records acknowledged", disk.len(FILE), acked));
                recover(cx, f, &mut disk, FILE, &mut held, &mut acked, prop)?;
            }
            1 => {
                disk.sync(FILE);
                acked = held.len();
                cx.event(format!("t={t} sync: {acked} records"));
            }
            _ => {
                let r = record(cx, f)?;
                let before = disk.len(FILE);
                let mut w = SimWriter::new(cx, if faulty { Faults { short: cx.below(500), eintr: cx.below(200), ..Faults::NONE } } else { Faults::NONE });
                if faulty {
                    match cx.below(7) {
                        0 => w.fail_at = Some(cx.usize(r.bytes.len() + 1)),
                        1 => w.capacity = Some(cx.usize(r.bytes.len() + 1)),
                        2 => w.crash_at = Some(cx.usize(r.bytes.len() + 1)),
                        _ => {}
                    }
                }
                let done = crashable("storing a record", || {
                    encode(f, &r.doc(true), &mut w).and_then(|()| {
                        use std::io::Write;
                        w.write_all(sep(f)).map_err(|e| format!("io:{:?}:{e}", e.kind()))
                    })
                })?;
                cx.op();
                disk.append(FILE, &w.data);
                match done {
                    None => {
                        // killed in the middle of the write
                        cx.event(format!("t={t} killed while storing ({}), {} B written", r.name(), w.data.len()));
                        disk.crash(cx);
                        recover(cx, f, &mut disk, FILE, &mut held, &mut acked, prop)?;
                    }
                    Some(Ok(())) => {
                        if w.failed.is_some() || w.data.len() != r.bytes.len() + sep(f).len() {
                            return viol("write-failure-masked", format!("{f:?} of ({}) claims success with {} B of {}", r.name(), w.data.len(), r.bytes.len()));
                        }
                        cx.event(format!("t={t} stored ({})", r.name()));
                        held.push(r);
                        if cx.chance(1, 2) {
                            disk.sync(FILE);
                            acked = held.len();
                        }
                    }
                    Some(Err(e)) => {
                        if w.failed.is_none() {
                            return viol("spurious-failure", format!("{f:?} of ({}) fails with {e} on a working disk", r.name()));
                        }
                        if !r.bytes.starts_with(&w.data) && w.data.len() <= r.bytes.len() {
                            return viol("torn-write", format!("{f:?} of ({}): wrote {:?}", r.name(), Bytes(&w.data)));
                        }
                        cx.event(format!("t={t} storing failed: {e}; rolled back"));
                        disk.truncate(FILE, before);
                        acked = held.len(); // truncate is durable
                    }
                }
            }
        }
        if cx.chance(1, 4) {
            recover(cx, f, &mut disk, FILE, &mut held, &mut acked, prop)?;
        }
    }
    disk.crash(cx);
    recover(cx, f, &mut disk, FILE, &mut held, &mut acked, prop)?;
    cx.event(format!("t={t} end: {} records", held.len()));
    cx.lock().time_us += t;
    Ok(())
}

/// C05: a document kept in a file of its own, replaced as a whole: written beside, renamed.
pub fn settings(cx: &Cx) -> Res {
    let f = *cx.pick(&[Format::Toml, Format::Toml, Format::Json, Format::JsonPretty]);
    let faulty = cx.chance(5, 6);
    // what the file may hold after a crash: whole documents, the last one maybe torn
    let mut current = record(cx, f)?;
    let mut content = current.bytes.clone();
    cx.event(format!("{f:?} settings ({}) {:?}", current.name(), Bytes(&content)));
    let mut t = 0;
    for _ in 0..2 + cx.usize(8) {
        t += 1000 + cx.below(5000);
        let next = record(cx, f)?;
        let mut w = SimWriter::new(cx, if faulty { Faults { short: cx.below(500), eintr: cx.below(200), ..Faults::NONE } } else { Faults::NONE });
        if faulty {
            match cx.below(6) {
                0 => w.fail_at = Some(cx.usize(next.bytes.len() + 1)),
                1 => w.capacity = Some(cx.usize(next.bytes.len() + 1)),
                2 => w.crash_at = Some(cx.usize(next.bytes.len() + 1)),
                _ => {}
            }
        }
        let done = crashable("writing a document", || encode(f, &next.doc(true), &mut w))?;
        cx.op();
        let torn = match done {
            None => {
                cx.fault("crash");
                None
            }
            Some(Err(e)) if w.failed.is_none() => {
                return viol("spurious-failure", format!("{f:?} of ({}) fails with {e} on a working disk", next.name()));
            }
            Some(Err(_)) => None,
            Some(Ok(())) if w.failed.is_some() || w.data != next.bytes => {
                return viol("write-failure-masked", format!("{f:?} of ({}) claims success with {} B of {}", next.name(), w.data.len(), next.bytes.len()));
            }
            // renamed after the sync, or (by a careless program) before, and the power lost
            Some(Ok(())) => Some(cx.chance(1, 4)),
        };
        cx.event(format!("t={t} write ({}): {} of {} B, careless: {torn:?}", next.name(), w.data.len(), next.bytes.len()));
        match torn {
            None => {}
            Some(false) => {
                content = next.bytes.clone();
                current = next;
            }
            Some(true) => {
                let mut d = Disk::default();
                d.append("new", &next.bytes);
                d.crash(cx);
                let left = d.read("new");
                if left != next.bytes {
                    // nothing is promised about a document that is not there, but no lies, either
                    cx.probe("torn-document");
                    for route in Route::of(f) {
                        check(*route, &left, &Plan::benign(cx), std::slice::from_ref(&next.rec), &Stats::new())?;
                    }
                } else {
                    content = left;
                    current = next;
                }
            }
        }
        for route in Route::of(f) {
            let (plan, stats) = (Plan::benign(cx), Stats::new());
            let got = check(*route, &content, &plan, std::slice::from_ref(&current.rec), &stats)?;
            stats.book(cx);
            let wide = current.rec.kinds.iter().any(|k| k.code / 64 == 128 && k.m.base() == Module::Repr);
            if wide && matches!(route, Route::JsonTree | Route::JsonTreeRef) {
                continue;
            }
            let Some((d, j)) = got.first() else { return viol("lost", format!("{route:?}: nothing read from {:?}", Bytes(&content))) };
            recovered(&current, d, *j)?;
        }
        // damaged at rest
        if cx.chance(1, 2) {
            let mut data = content.clone();
            damage(cx, &mut data);
            let route = *cx.pick(Route::of(f));
            check(route, &data, &Plan::benign(cx), std::slice::from_ref(&current.rec), &Stats::new())?;
        }
    }
    cx.lock().time_us += t;
    Ok(())
}

/// Read the whole store; cut off what is not a whole record; check nothing acknowledged is gone.
fn recover(cx: &Cx, f: Format, disk: &mut Disk, file: &str, held: &mut Vec<Record>, acked: &mut usize, prop: u32) -> Res {
    let data = disk.read(file);
    // how many records survive whole (known from their canonical bytes), and where the tail starts
    let (mut whole, mut off) = (0, 0);
    for r in held.iter() {
        let end = off + r.bytes.len() + sep(f).len();
        if data.len() >= end && data[off..off + r.bytes.len()] == r.bytes[..] && data[end - sep(f).len()..end] == *sep(f) {
            whole += 1;
            off = end;
        } else {
            break;
        }
    }
    if whole < *acked {
        panic!("harness: the disk lost a synced record");
    }
    let tail = &data[off..];
    cx.event(format!("recovery: {} B, {whole} of {} records whole, tail {} B", data.len(), held.len(), tail.len()));
    let mut expect = recs(held);
    expect.truncate(whole);
    for _ in 0..1 + cx.usize(2) {
        let mut routes = Route::of(f).to_vec();
        routes.retain(|r| !matches!(r, Route::JsonStr));
        let route = *cx.pick(&routes);
        let plan = Plan::benign(cx);
        let stats = Stats::new();
        let got = check(route, &data[..off], &plan, &expect, &stats)?;
        stats.book(cx);
        cx.op();
        for (i, r) in held.iter().take(whole).enumerate() {
            match got.get(i) {
                Some((d, j)) => {
                    let wide = r.rec.kinds.iter().any(|k| k.code / 64 == 128 && k.m.base() == Module::Repr);
                    if *j == Judged::FormatFailed && wide && matches!(route, Route::JsonTree | Route::JsonTreeRef) {
                        cx.probe("tree-cannot-hold-i128");
                        break;
                    }
                    recovered(r, d, *j)?;
                    if *j == Judged::Rejected {
                        break; // a float at the very edge; the stream ends here for this reader
                    }
                }
                None => return viol("lost", format!("{route:?}: record {i} of {whole} missing: {:?}", got.last())),
            }
        }
    }
    // The torn tail: as the record it was to be, never accepted.
    if !tail.is_empty() && whole < held.len() {
        let r = &held[whole];
        let bare = r.rec.shape == Shape::Single && prop == 5; // numbers have no end mark
        if tail.len() < r.bytes.len() && r.bytes.starts_with(tail) && !bare {
            cx.probe("torn-record");
            for route in Route::of(f) {
                if std::str::from_utf8(tail).is_err() && *route == Route::JsonStr {
                    continue;
                }
                let plan = Plan::benign(cx);
                let stats = Stats::new();
                let got = check(*route, tail, &plan, std::slice::from_ref(&r.rec), &stats)?;
                stats.book(cx);
                if got.iter().any(|(_, j)| *j == Judged::Complete) {
                    return viol("torn-accepted", format!("{route:?}: torn record {:?} of ({}) is read as {:?}", Bytes(tail), r.name(), got[0].0.fields));
                }
            }
        } else {
            // zeroed sector and the like: whatever it is, like the format says
            cx.probe("damaged-tail");
            let plan = Plan::benign(cx);
            let stats = Stats::new();
            check(Route::reader_of(f), tail, &plan, std::slice::from_ref(&r.rec), &stats)?;
            stats.book(cx);
        }
    }
    disk.truncate(file, off);
    held.truncate(whole);
    *acked = whole;
    Ok(())
}

/// C08: streams hit by damage, cuts and device errors in flight.
pub fn binary_stream(cx: &Cx) -> Res {
    let f = *cx.pick(&[Format::Bin, Format::Cbor, Format::BinVar]);
    let n = 1 + cx.usize(5);
    let mut all = vec![];
    let mut stream = vec![];
    let mut ends = vec![];
    for _ in 0..n {
        let r = record(cx, f)?;
        stream.extend_from_slice(&r.bytes);
        ends.push(stream.len());
        all.push(r);
    }
    cx.event(format!("{f:?} stream of {n} records, {} B", stream.len()));
    let rs = recs(&all);
    for _ in 0..2 + cx.usize(5) {
        let mut data = stream.clone();
        let mut intact = n;
        let mut plan = Plan::benign(cx);
        match cx.below(4) {
            0 => {}
            1 => {
                let c = cx.usize(data.len() + 1);
                data.truncate(c);
                cx.fault("truncated");
                intact = ends.iter().filter(|e| **e <= c).count();
            }
            2 => {
                plan = Plan::failing(cx, data.len());
                intact = ends.iter().filter(|e| **e <= plan.fail_at.unwrap()).count();
            }
            _ => {
                let from = cx.usize(n);
                let start = if from == 0 { 0 } else { ends[from - 1] };
                let mut tail = data.split_off(start);
                damage(cx, &mut tail);
                data.extend_from_slice(&tail);
                intact = from;
            }
        }
        let route = if plan.fail_at.is_some() { Route::reader_of(f) } else { *cx.pick(Route::of(f)) };
        let stats = Stats::new();
        let got = check(route, &data, &plan, &rs, &stats)?;
        stats.book(cx);
        cx.op();
        cx.event(format!("{route:?}: {} records, last {:?}", got.len(), got.last().map(|g| &g.0.end)));
        for (i, r) in all.iter().take(intact).enumerate() {
            let Some((d, j)) = got.get(i) else { return viol("lost", format!("{route:?}: whole record {i} not returned; last {:?}", got.last())) };
            recovered(r, d, *j)?;
            if *j == Judged::Rejected {
                break;
            }
            if matches!(route, Route::BinReader | Route::BinVarReader | Route::CborReader | Route::CborSlice) {
                if d.end != Ok(ends[i]) {
                    return viol("framing", format!("{route:?}: after record {i} the stream is at {:?}, not {}", d.end, ends[i]));
                }
            }
        }
    }
    cx.lock().time_us += 1000 * n as u64;
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C09

pub fn xml(cx: &Cx) -> Res {
    let f = Format::Xml;
    let list = cx.chance(1, 3);
    let r = if list {
        // (sequences are only read: this quick-xml writes none)
        let kinds = kinds(cx, 5);
        let vals: Vec<_> = kinds.iter().map(|k| Some(crate::gen::raw(cx, k.ty()))).collect();
        let mut r = Record { rec: Rec { kinds, shape: Shape::List }, vals, children: !0, bytes: vec![] };
        let ws = *cx.pick(&["", "", "\n  "]);
        let body: String = r.rec.kinds.iter().zip(&r.vals).map(|(k, v)| format!("{ws}<f0>{}</f0>", wire_text(*k, v.unwrap()))).collect();
        r.bytes = format!("<doc>{body}{}</doc>", ws.trim_end_matches(' ')).into_bytes();
        cx.probe("xml-sequence");
        r
    } else {
        record(cx, f)?
    };
    cx.event(format!("xml ({}) {:?}", r.name(), Bytes(&r.bytes)));
    // undisturbed: read back as stored
    for _ in 0..1 + cx.usize(2) {
        let route = *cx.pick(Route::of(f));
        let plan = Plan::benign(cx);
        let stats = Stats::new();
        let got = check(route, &r.bytes, &plan, std::slice::from_ref(&r.rec), &stats)?;
        stats.book(cx);
        cx.op();
        let (d, j) = &got[0];
        if representable(&r) {
            recovered(&r, d, *j)?;
        }
    }
    for _ in 0..2 + cx.usize(6) {
        let mut data = r.bytes.clone();
        let mut plan = Plan::benign(cx);
        match cx.below(4) {
            0 => {
                let c = cx.usize(data.len() + 1);
                data.truncate(c);
                cx.fault("truncated");
            }
            1 => plan = Plan::failing(cx, data.len()),
            2 if r.rec.shape != Shape::Variant => {
                reformat(cx, &r, &mut data);
            }
            _ => {
                damage(cx, &mut data);
            }
        }
        let route = if plan.fail_at.is_some() { Route::XmlReader } else { *cx.pick(Route::of(f)) };
        if route == Route::XmlStr && std::str::from_utf8(&data).is_err() {
            continue;
        }
        let stats = Stats::new();
        let got = check(route, &data, &plan, std::slice::from_ref(&r.rec), &stats)?;
        stats.book(cx);
        cx.op();
        cx.event(format!("{route:?} {:?}: {:?}", Bytes(&data), got.first().map(|g| &g.0.end)));
    }
    if !list {
        write_attempt(cx, f, &r)?;
    }
    cx.lock().time_us += 1000;
    Ok(())
}

fn wire_text(k: Kind, v: i128) -> String {
    match k.m.base() {
        Module::Repr => v.to_string(),
        Module::Float => format!("{:?}", to_f64(k.code, v)),
        _ => k.ty().display(v),
    }
}

/// The same content, written differently by another peer.
fn reformat(cx: &Cx, r: &Record, data: &mut Vec<u8>) {
    let mut attrs = String::new();
    let mut kids = String::new();
    for (i, (k, v)) in r.rec.kinds.iter().zip(&r.vals).enumerate() {
        let Some(v) = v else { continue };
        let text = wire_text(*k, *v);
        let ws = |cx: &Cx| *cx.pick(&["", "", " ", "\n  ", "\t"]);
        let list = r.rec.shape == Shape::List;
        let i = if list { 0 } else { i };
        if !list && cx.chance(1, 2) {
            attrs += &format!(" f{i}=\"{text}\"");
        } else {
            match cx.below(5) {
                4 if cx.chance(1, 4) => {
                    // no amount at all, in one of the ways XML has for that
                    kids += &cx.pick(&["<f></f>", "<f/>", "<f><![CDATA[]]></f>", "<f> </f>", "<f><!-- c --></f>", "<f><g>1</g></f>", "<f>1<g/>2</f>", "<f>&#32;</f>", "<f a=\"5\"/>"])
                        .replace("<f", &format!("<f{i}")).replace("</f", &format!("</f{i}"));
                    cx.probe("xml-empty-element");
                }
                0 => kids += &format!("<f{i}><![CDATA[{text}]]></f{i}>"),
                1 => kids += &format!("{}<f{i}>{}{text}{}</f{i}>{}", ws(cx), ws(cx), ws(cx), ws(cx)),
                2 => kids += &format!("<!-- c --><f{i} a=\"1\">{text}</f{i}>"),
                _ => {
                    let esc: String = text.chars().map(|c| if cx.chance(1, 3) { format!("&#{};", c as u32) } else { c.to_string() }).collect();
                    kids += &format!("<f{i}>{esc}</f{i}>");
                }
            }
        }
    }
    if cx.chance(1, 3) {
        kids += "<other>7</other>";
    }
    *data = format!("<doc{attrs}>{kids}</doc>").into_bytes();
    cx.probe("xml-reformatted");
}
