//! C04: amounts written to text sinks that fail, fill up or are torn down.
use crate::core::*;
use crate::env::{Disk, Faults, SimWriter, MARK};
use crate::gen;
use fixnum::{typenum::*, FixedPoint};
use fxmodel::Ty;
use std::fmt;
use std::io::Write as _;

/// Calls `go!(int, prec)` for any type of the build; precision 0..=18 (i64), 0..=4, 0..=9, 0..=38.
#[macro_export]
macro_rules! any_type {
    ($ty:expr, $go:ident) => {{
        let ty: fxmodel::Ty = $ty;
        match (ty.bits, ty.prec) {
            (64, 0) => $go!(i64, U0),
            (64, 1) => $go!(i64, U1),
            (64, 2) => $go!(i64, U2),
            (64, 3) => $go!(i64, U3),
            (64, 4) => $go!(i64, U4),
            (64, 5) => $go!(i64, U5),
            (64, 6) => $go!(i64, U6),
            (64, 7) => $go!(i64, U7),
            (64, 8) => $go!(i64, U8),
            (64, 9) => $go!(i64, U9),
            (64, 10) => $go!(i64, U10),
            (64, 11) => $go!(i64, U11),
            (64, 12) => $go!(i64, U12),
            (64, 13) => $go!(i64, U13),
            (64, 14) => $go!(i64, U14),
            (64, 15) => $go!(i64, U15),
            (64, 16) => $go!(i64, U16),
            (64, 17) => $go!(i64, U17),
            (64, 18) => $go!(i64, U18),
            #[cfg(feature = "wide")]
            (16, 0) => $go!(i16, U0),
            #[cfg(feature = "wide")]
            (16, 1) => $go!(i16, U1),
            #[cfg(feature = "wide")]
            (16, 2) => $go!(i16, U2),
            #[cfg(feature = "wide")]
            (16, 3) => $go!(i16, U3),
            #[cfg(feature = "wide")]
            (16, 4) => $go!(i16, U4),
            #[cfg(feature = "wide")]
            (32, 0) => $go!(i32, U0),
            #[cfg(feature = "wide")]
            (32, 1) => $go!(i32, U1),
            #[cfg(feature = "wide")]
            (32, 2) => $go!(i32, U2),
            #[cfg(feature = "wide")]
            (32, 3) => $go!(i32, U3),
            #[cfg(feature = "wide")]
            (32, 4) => $go!(i32, U4),
            #[cfg(feature = "wide")]
            (32, 5) => $go!(i32, U5),
            #[cfg(feature = "wide")]
            (32, 6) => $go!(i32, U6),
            #[cfg(feature = "wide")]
            (32, 7) => $go!(i32, U7),
            #[cfg(feature = "wide")]
            (32, 8) => $go!(i32, U8),
            #[cfg(feature = "wide")]
            (32, 9) => $go!(i32, U9),
            #[cfg(feature = "wide")]
            (128, 0) => $go!(i128, U0),
            #[cfg(feature = "wide")]
            (128, 1) => $go!(i128, U1),
            #[cfg(feature = "wide")]
            (128, 2) => $go!(i128, U2),
            #[cfg(feature = "wide")]
            (128, 3) => $go!(i128, U3),
            #[cfg(feature = "wide")]
            (128, 4) => $go!(i128, U4),
            #[cfg(feature = "wide")]
            (128, 5) => $go!(i128, U5),
            #[cfg(feature = "wide")]
            (128, 6) => $go!(i128, U6),
            #[cfg(feature = "wide")]
            (128, 7) => $go!(i128, U7),
            #[cfg(feature = "wide")]
            (128, 8) => $go!(i128, U8),
            #[cfg(feature = "wide")]
            (128, 9) => $go!(i128, U9),
            #[cfg(feature = "wide")]
            (128, 10) => $go!(i128, U10),
            #[cfg(feature = "wide")]
            (128, 11) => $go!(i128, U11),
            #[cfg(feature = "wide")]
            (128, 12) => $go!(i128, U12),
            #[cfg(feature = "wide")]
            (128, 13) => $go!(i128, U13),
            #[cfg(feature = "wide")]
            (128, 14) => $go!(i128, U14),
            #[cfg(feature = "wide")]
            (128, 15) => $go!(i128, U15),
            #[cfg(feature = "wide")]
            (128, 16) => $go!(i128, U16),
            #[cfg(feature = "wide")]
            (128, 17) => $go!(i128, U17),
            #[cfg(feature = "wide")]
            (128, 18) => $go!(i128, U18),
            #[cfg(feature = "wide")]
            (128, 19) => $go!(i128, U19),
            #[cfg(feature = "wide")]
            (128, 20) => $go!(i128, U20),
            #[cfg(feature = "wide")]
            (128, 21) => $go!(i128, U21),
            #[cfg(feature = "wide")]
            (128, 22) => $go!(i128, U22),
            #[cfg(feature = "wide")]
            (128, 23) => $go!(i128, U23),
            #[cfg(feature = "wide")]
            (128, 24) => $go!(i128, U24),
            #[cfg(feature = "wide")]
            (128, 25) => $go!(i128, U25),
            #[cfg(feature = "wide")]
            (128, 26) => $go!(i128, U26),
            #[cfg(feature = "wide")]
            (128, 27) => $go!(i128, U27),
            #[cfg(feature = "wide")]
            (128, 28) => $go!(i128, U28),
            #[cfg(feature = "wide")]
            (128, 29) => $go!(i128, U29),
            #[cfg(feature = "wide")]
            (128, 30) => $go!(i128, U30),
            #[cfg(feature = "wide")]
            (128, 31) => $go!(i128, U31),
            #[cfg(feature = "wide")]
            (128, 32) => $go!(i128, U32),
            #[cfg(feature = "wide")]
            (128, 33) => $go!(i128, U33),
            #[cfg(feature = "wide")]
            (128, 34) => $go!(i128, U34),
            #[cfg(feature = "wide")]
            (128, 35) => $go!(i128, U35),
            #[cfg(feature = "wide")]
            (128, 36) => $go!(i128, U36),
            #[cfg(feature = "wide")]
            (128, 37) => $go!(i128, U37),
            #[cfg(feature = "wide")]
            (128, 38) => $go!(i128, U38),
            _ => panic!("harness: type"),
        }
    }};
}

pub fn any(cx: &Cx) -> Ty {
    if cfg!(feature = "wide") {
        match cx.below(6) {
            0 => Ty::new(16, cx.below(5) as u32),
            1 => Ty::new(32, cx.below(10) as u32),
            2 | 3 => Ty::new(128, cx.below(39) as u32),
            _ => Ty::new(64, cx.below(19) as u32),
        }
    } else {
        Ty::new(64, cx.below(19) as u32)
    }
}

/// A text sink with a capacity, a failure point and a point where its owner is torn down.
pub struct TextSink {
    pub data: String,
    /// Takes what fits, then fails; otherwise refuses the whole piece.
    partial: bool,
    fail_at: Option<usize>,
    crash_at: Option<usize>,
    /// Fails this many times, then has room again.
    times: usize,
    failed: bool,
}
impl fmt::Write for TextSink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let end = self.data.len() + s.len();
        if let Some(c) = self.crash_at {
            if end > c {
                let n = c.saturating_sub(self.data.len());
                self.data.push_str(&s[..n]);
                std::panic::panic_any(Crash);
            }
        }
        if let Some(c) = self.fail_at {
            if end > c && self.times > 0 {
                self.times -= 1;
                if self.partial {
                    let n = c.saturating_sub(self.data.len());
                    self.data.push_str(&s[..n]);
                }
                self.failed = true;
                return Err(fmt::Error);
            }
        }
        self.data.push_str(s);
        Ok(())
    }
}

const STYLES: u64 = 14;
/// A caller's own type holding amounts.
#[derive(Debug)]
struct Row<T> {
    #[allow(dead_code)]
    amount: T,
    #[allow(dead_code)]
    fee: Option<T>,
}

/// How the text is asked for (alternate forms and flags change nothing); the canonical text of each style.
fn canonical(ty: Ty, vals: &[i128], style: u64) -> String {
    let d: Vec<String> = vals.iter().map(|v| ty.display(*v)).collect();
    match style {
        0 | 1 => d[0].clone(),
        2 => format!("[{}, {}] = {}", d[0], d[1], d[2]),
        3 => format!("({}, Some({}))", d[0], d[1]),
        4 => format!("{}|{}|{}", d[0], d[0], d[2]),
        6 | 7 => d[0].clone(),
        8 => format!("(\n    {},\n    Some(\n        {},\n    ),\n)", d[0], d[1]),
        9 => format!("[\n    {},\n    {},\n]", d[0], d[1]),
        10 => format!("Row {{ amount: {}, fee: Some({}) }}", d[0], d[1]),
        11 => format!("Row {{\n    amount: {},\n    fee: None,\n}}", d[0]),
        12 => format!("{}|{}|{}|{}", d[0], d[1], d[2], d[0]),
        13 => format!("{}|{}|{}|{}", d[0], d[1], d[2], d[0]),
        _ => format!("[{}, {}, {}]", d[0], d[1], d[2]),
    }
}

fn write_to(ty: Ty, vals: &[i128], style: u64, out: &mut dyn fmt::Write) -> fmt::Result {
    macro_rules! go {
        ($i:ident, $p:ident) => {{
            let x: Vec<FixedPoint<$i, $p>> = vals.iter().map(|v| FixedPoint::from_bits(*v as $i)).collect();
            match style {
                0 => write!(out, "{}", x[0]),
                1 => write!(out, "{:?}", x[0]),
                2 => write!(out, "[{}, {:?}] = {}", x[0], x[1], x[2]),
                3 => write!(out, "{:?}", (x[0], Some(x[1]))),
                4 => write!(out, "{0}|{0}|{1}", x[0], x[2]),
                6 => write!(out, "{:#}", x[0]),
                7 => write!(out, "{:#?}", x[0]),
                8 => write!(out, "{:#?}", (x[0], Some(x[1]))),
                9 => write!(out, "{:#?}", &x[..2]),
                10 => write!(out, "{:?}", Row { amount: x[0], fee: Some(x[1]) }),
                11 => write!(out, "{:#?}", Row { amount: x[0], fee: None }),
                12 => write!(out, "{:+}|{:12}|{:.1}|{:<3}", x[0], x[1], x[2], x[0]),
                13 => write!(out, "{:+?}|{:>w$?}|{:.p$?}|{:02x?}", x[0], x[1], x[2], x[0], w = 50, p = 0),
                _ => write!(out, "{:?}", &x[..3]),
            }
        }};
    }
    any_type!(ty, go)
}
fn write_io(ty: Ty, vals: &[i128], style: u64, out: &mut dyn std::io::Write) -> std::io::Result<()> {
    macro_rules! go {
        ($i:ident, $p:ident) => {{
            let x: Vec<FixedPoint<$i, $p>> = vals.iter().map(|v| FixedPoint::from_bits(*v as $i)).collect();
            match style {
                0 => write!(out, "{}", x[0]),
                1 => write!(out, "{:?}", x[0]),
                2 => write!(out, "[{}, {:?}] = {}", x[0], x[1], x[2]),
                3 => write!(out, "{:?}", (x[0], Some(x[1]))),
                4 => write!(out, "{0}|{0}|{1}", x[0], x[2]),
                6 => write!(out, "{:#}", x[0]),
                7 => write!(out, "{:#?}", x[0]),
                8 => write!(out, "{:#?}", (x[0], Some(x[1]))),
                9 => write!(out, "{:#?}", &x[..2]),
                10 => write!(out, "{:?}", Row { amount: x[0], fee: Some(x[1]) }),
                11 => write!(out, "{:#?}", Row { amount: x[0], fee: None }),
                12 => write!(out, "{:+}|{:12}|{:.1}|{:<3}", x[0], x[1], x[2], x[0]),
                13 => write!(out, "{:+?}|{:>w$?}|{:.p$?}|{:02x?}", x[0], x[1], x[2], x[0], w = 50, p = 0),
                _ => write!(out, "{:?}", &x[..3]),
            }
        }};
    }
    any_type!(ty, go)
}
/// By value, rounding and exact.
pub fn parse(ty: Ty, s: &str) -> (Option<i128>, Option<i128>) {
    macro_rules! go {
        ($i:ident, $p:ident) => {{
            type F = FixedPoint<$i, $p>;
            (s.parse::<F>().ok().map(|x| x.into_bits() as i128), F::from_str_exact(s).ok().map(|x| x.into_bits() as i128))
        }};
    }
    any_type!(ty, go)
}

fn reads_back(ty: Ty, v: i128, s: &str) -> Res {
    let (a, b) = calm("parsing", || parse(ty, s))?;
    // (The exact form counts digits, so it refuses the ".0" of an amount of precision 0.)
    if a != Some(v) || b != Some(v).filter(|_| ty.prec > 0) {
        return viol("read-back", format!("{} {v}: its text {s:?} parses as {a:?} (exactly: {b:?})", ty.name()));
    }
    Ok(())
}

pub fn run(cx: &Cx) -> Res {
    let mut disk = Disk::default();
    let mut lines: Vec<(Ty, i128, String)> = vec![];
    let mut durable = 0;
    let mut t = 0;
    for _ in 0..3 + cx.usize(12) {
        t += 50 + cx.below(1000);
        let ty = any(cx);
        let vals: Vec<i128> = (0..3).map(|_| gen::raw(cx, ty)).collect();
        let style = cx.below(STYLES);
        let want = canonical(ty, &vals, style);
        cx.op();
        match cx.below(4) {
            0 | 1 => {
                // formatting into a caller's sink
                let mut s = TextSink { data: String::new(), partial: cx.chance(1, 2), fail_at: None, crash_at: None, times: *cx.pick(&[1, 1, 2, usize::MAX]), failed: false };
                match cx.below(4) {
                    0 => {}
                    1 => s.crash_at = Some(cx.usize(want.len() + 1)),
                    _ => s.fail_at = Some(cx.usize(want.len() + 1)),
                }
                let r = crashable("formatting", || write_to(ty, &vals, style, &mut s))?;
                cx.event(format!("{} {vals:?} style {style} into sink fail {:?} crash {:?}: {:?} after {}", ty.name(), s.fail_at, s.crash_at, r, s.data.len()));
                let bad = |c: &str| viol(c, format!("{} {vals:?} style {style}, sink fail {:?} crash {:?}: {r:?}, delivered {:?}, canonical {want:?}", ty.name(), s.fail_at, s.crash_at, s.data));
                if !want.starts_with(&s.data) {
                    return bad("not-a-prefix");
                }
                match r {
                    Some(Ok(())) if s.failed || s.data != want => return bad("failure-masked"),
                    Some(Err(_)) if !s.failed => return bad("spurious-failure"),
                    Some(Err(_)) => cx.fault("sink-failed"),
                    None => cx.fault("crash-in-sink"),
                    _ => {}
                }
                if s.failed || r.is_none() {
                    let mut s = String::new();
                    let again = calm("formatting again", || write_to(ty, &vals, style, &mut s))?;
                    if again.is_err() || s != want {
                        return viol("retry", format!("{} {vals:?} style {style}: retry delivers {s:?}, canonical {want:?}", ty.name()));
                    }
                }
            }
            2 => {
                // through a byte device
                let mut w = SimWriter::new(cx, Faults { short: cx.below(600), eintr: cx.below(200), ..Faults::NONE });
                match cx.below(4) {
                    0 => {}
                    1 => w.capacity = Some(cx.usize(want.len() + 1)),
                    2 => w.crash_at = Some(cx.usize(want.len() + 1)),
                    _ => w.fail_at = Some(cx.usize(want.len() + 1)),
                }
                let r = crashable("formatting", || write_io(ty, &vals, style, &mut w))?;
                let shown = r.as_ref().map(|r| r.as_ref().map_err(|e| e.to_string()).copied());
                cx.event(format!("{} {vals:?} style {style} into device: {shown:?} after {}", ty.name(), w.data.len()));
                let bad = |c: &str| viol(c, format!("{} {vals:?} style {style} into a device (failed {:?}): {shown:?}, delivered {:?}, canonical {want:?}", ty.name(), w.failed, String::from_utf8_lossy(&w.data)));
                if !want.as_bytes().starts_with(&w.data) {
                    return bad("not-a-prefix");
                }
                match (&r, w.failed) {
                    (None, _) => {}
                    (Some(Ok(())), None) if w.data == want.as_bytes() => {}
                    (Some(Err(e)), Some((k, n))) if e.kind() == k && e.to_string() == format!("{MARK}{n}.") => {}
                    _ => return bad("failure-masked"),
                }
            }
            _ => {
                // journal line
                let v = vals[0];
                let text = ty.display(v);
                let mut w = SimWriter::new(cx, Faults { short: cx.below(600), eintr: cx.below(200), ..Faults::NONE });
                if cx.chance(1, 4) {
                    w.crash_at = Some(cx.usize(text.len() + 1));
                }
                let done = crashable("journalling", || write_io(ty, &vals, 0, &mut w).and_then(|()| w.write_all(b"\n")))?;
                disk.append("journal", &w.data);
                lines.push((ty, v, text));
                cx.event(format!("t={t} journal {} {v}: {:?}", ty.name(), done.is_some()));
                if cx.chance(1, 2) && done.is_some() {
                    disk.sync("journal");
                    durable = lines.len();
                }
                if done.is_none() || cx.chance(1, 6) {
                    cx.fault("crash");
                    disk.crash(cx);
                    journal(cx, &mut disk, &mut lines, &mut durable)?;
                }
            }
        }
        for v in &vals {
            reads_back(ty, *v, &ty.display(*v))?;
        }
        // owned text
        let s = calm("to_string", || {
            macro_rules! go {
                ($i:ident, $p:ident) => {
                    FixedPoint::<$i, $p>::from_bits(vals[1] as $i).to_string()
                };
            }
            any_type!(ty, go)
        })?;
        if s != ty.display(vals[1]) {
            return viol("text", format!("{} {}: to_string gives {s:?}, canonical {:?}", ty.name(), vals[1], ty.display(vals[1])));
        }
    }
    journal(cx, &mut disk, &mut lines, &mut durable)?;
    cx.lock().time_us += t;
    Ok(())
}

fn journal(cx: &Cx, disk: &mut Disk, lines: &mut Vec<(Ty, i128, String)>, durable: &mut usize) -> Res {
    let data = disk.read("journal");
    let mut n = 0;
    let mut off = 0;
    while let Some(e) = data[off..].iter().position(|b| *b == b'\n') {
        let Some((ty, v, text)) = lines.get(n) else { break };
        let line = &data[off..off + e];
        if line != text.as_bytes() {
            break; // a damaged tail
        }
        reads_back(*ty, *v, std::str::from_utf8(line).unwrap())?;
        off += e + 1;
        n += 1;
    }
    cx.event(format!("journal: {n} of {} lines, {} acknowledged", lines.len(), durable));
    if n < *durable {
        return viol("lost", format!("journal holds {n} good lines, {durable} were acknowledged: {:?}", String::from_utf8_lossy(&data)));
    }
    disk.truncate("journal", off);
    lines.truncate(n);
    *durable = n;
    Ok(())
}
