//! Real serde formats over simulated transports.
use crate::core::Cx;
use crate::docs::*;
use crate::env::MARK;
use bincode::Options;
use serde::de::DeserializeSeed;
use std::cell::Cell;
use std::io::{self, BufRead, Read};
use std::rc::Rc;

/// How a stream behaves; fixed up front, so that two decoders can be given the same delivery.
#[derive(Clone, Debug)]
pub struct Plan {
    pub chunks: Vec<u8>,
    pub interrupts: Vec<bool>,
    pub fail_at: Option<usize>,
    pub kind: io::ErrorKind,
    pub n: u64,
    /// The stream panics (its owner is torn down) here.
    pub crash_at: Option<usize>,
    /// Use an intermediate BufReader of this capacity.
    pub buffer: usize,
}
pub const KINDS: [io::ErrorKind; 8] = [
    io::ErrorKind::Other,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::ConnectionReset,
    io::ErrorKind::TimedOut,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::InvalidData,
    io::ErrorKind::UnexpectedEof,
];
impl Plan {
    pub fn smooth() -> Plan {
        Plan { chunks: vec![255], interrupts: vec![false], fail_at: None, kind: io::ErrorKind::Other, n: 0, crash_at: None, buffer: 0 }
    }
    /// Chunked and interrupted, but complete.
    pub fn benign(cx: &Cx) -> Plan {
        let mut p = Plan::smooth();
        if cx.chance(3, 4) {
            p.chunks = (0..1 + cx.usize(5)).map(|_| 1 + cx.below(8) as u8).collect();
        }
        if cx.chance(1, 2) {
            p.interrupts = (0..2 + cx.usize(6)).map(|_| cx.chance(1, 3)).collect();
            p.interrupts.push(false);
        }
        if cx.chance(1, 3) {
            p.buffer = 1 + cx.usize(20);
        }
        p
    }
    /// Failing somewhere within `len` bytes.
    pub fn failing(cx: &Cx, len: usize) -> Plan {
        let mut p = Plan::benign(cx);
        p.fail_at = Some(cx.usize(len + 1));
        p.kind = *cx.pick(&KINDS);
        p.n = cx.below(1000);
        p
    }
    pub fn error(&self) -> io::Error {
        io::Error::new(self.kind, format!("{MARK}{}.", self.n))
    }
    /// How an error class mentions this failure.
    pub fn mark(&self) -> String {
        format!("{MARK}{}.", self.n)
    }
}

pub struct PlanReader<'a> {
    data: &'a [u8],
    pub pos: usize,
    plan: &'a Plan,
    chunk: usize,
    int: usize,
    window: usize,
    pub short: u64,
    pub interrupted: u64,
    pub failed: bool,
    pub eof: bool,
}
impl<'a> PlanReader<'a> {
    pub fn new(data: &'a [u8], plan: &'a Plan) -> Self {
        PlanReader { data, pos: 0, plan, chunk: 0, int: 0, window: 0, short: 0, interrupted: 0, failed: false, eof: false }
    }
    fn avail(&mut self, want: usize) -> io::Result<usize> {
        if want == 0 {
            return Ok(0);
        }
        let i = self.plan.interrupts[self.int % self.plan.interrupts.len()];
        self.int += 1;
        if i {
            self.interrupted += 1;
            return Err(io::ErrorKind::Interrupted.into());
        }
        let mut end = self.data.len();
        if let Some(c) = self.plan.crash_at {
            if self.pos >= c {
                std::panic::panic_any(crate::core::Crash);
            }
            end = end.min(c);
        }
        if let Some(c) = self.plan.fail_at {
            if self.pos >= c {
                self.failed = true;
                return Err(self.plan.error());
            }
            end = end.min(c);
        }
        let n = self.plan.chunks[self.chunk % self.plan.chunks.len()] as usize;
        self.chunk += 1;
        let m = (end - self.pos).min(want);
        if n < m {
            self.short += 1;
        }
        if m == 0 {
            self.eof = true;
        }
        Ok(n.min(m))
    }
}
impl Read for PlanReader<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = self.avail(buf.len())?;
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
impl BufRead for PlanReader<'_> {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        if self.window == 0 {
            self.window = self.avail(64)?;
        }
        Ok(&self.data[self.pos..self.pos + self.window])
    }
    fn consume(&mut self, n: usize) {
        self.window -= n;
        self.pos += n;
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Format {
    Json,
    JsonPretty,
    Cbor,
    Bin,
    BinVar,
    Xml,
    Toml,
}
impl Format {
    pub fn human(self) -> bool {
        matches!(self, Format::Json | Format::JsonPretty | Format::Xml | Format::Toml)
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Route {
    JsonSlice,
    JsonStr,
    JsonReader,
    JsonTree,
    JsonTreeRef,
    /// Through serde's buffers: flattened, untagged, internally tagged (the document holds `t: A`).
    JsonFlat,
    JsonUntagged,
    JsonTagged,
    CborSlice,
    CborReader,
    CborTree,
    BinSlice,
    BinReader,
    BinVarSlice,
    BinVarReader,
    XmlStr,
    XmlReader,
    TomlStr,
    TomlSlice,
    TomlTree,
}
impl Route {
    pub fn reader(self) -> bool {
        matches!(self, Route::JsonReader | Route::CborReader | Route::BinReader | Route::BinVarReader | Route::XmlReader)
    }
    pub fn of(f: Format) -> &'static [Route] {
        match f {
            Format::Json | Format::JsonPretty => &[Route::JsonSlice, Route::JsonStr, Route::JsonReader, Route::JsonTree, Route::JsonTreeRef],
            Format::Cbor => &[Route::CborSlice, Route::CborReader, Route::CborTree],
            Format::Bin => &[Route::BinSlice, Route::BinReader],
            Format::BinVar => &[Route::BinVarSlice, Route::BinVarReader],
            Format::Xml => &[Route::XmlStr, Route::XmlReader],
            Format::Toml => &[Route::TomlStr, Route::TomlSlice, Route::TomlTree],
        }
    }
    pub fn reader_of(f: Format) -> Route {
        match f {
            Format::Json | Format::JsonPretty => Route::JsonReader,
            Format::Cbor => Route::CborReader,
            Format::Bin => Route::BinReader,
            Format::BinVar => Route::BinVarReader,
            Format::Xml => Route::XmlReader,
            Format::Toml => Route::TomlSlice,
        }
    }
}

pub fn bin() -> impl Options + Copy {
    bincode::options().with_fixint_encoding().allow_trailing_bytes().with_limit(1 << 16)
}
pub fn bin_var() -> impl Options + Copy {
    bincode::options().with_varint_encoding().allow_trailing_bytes().with_limit(1 << 16)
}

#[derive(serde::Deserialize)]
struct Flat {
    #[serde(flatten)]
    _inner: Erased,
}
#[derive(serde::Deserialize)]
#[serde(untagged)]
enum Untagged {
    A(#[allow(dead_code)] Erased),
}
#[derive(serde::Deserialize)]
#[serde(tag = "t")]
enum Tagged {
    A(#[allow(dead_code)] Erased),
}

/// Error classes: "io:<kind>:<text>", "eof", "syntax", "data".
fn io_class(e: &io::Error) -> String {
    if e.kind() == io::ErrorKind::UnexpectedEof && !e.to_string().contains(MARK) {
        "eof".into()
    } else {
        format!("io:{:?}:{e}", e.kind())
    }
}
fn json_class(e: serde_json::Error) -> String {
    use serde_json::error::Category::*;
    match e.classify() {
        Io => format!("io:{:?}:{e}", e.io_error_kind().expect("an I/O error has a kind")),
        Eof => "eof".into(),
        Syntax => "syntax".into(),
        Data => "data".into(),
    }
}
fn cbor_class(e: ciborium::de::Error<io::Error>) -> String {
    use ciborium::de::Error::*;
    match e {
        Io(e) => io_class(&e),
        Syntax(_) => "syntax".into(),
        Semantic(..) => "data".into(),
        RecursionLimitExceeded => "recursion".into(),
    }
}
fn bin_class(e: bincode::Error) -> String {
    match &*e {
        bincode::ErrorKind::Io(e) => io_class(e),
        bincode::ErrorKind::Custom(_) => "data".into(),
        bincode::ErrorKind::SizeLimit => "limit".into(),
        _ => "syntax".into(),
    }
}
/// (does not tell amounts complained about from its own complaints)
fn toml_class(_: toml::de::Error) -> String {
    "data".into()
}
fn xml_class(e: quick_xml::DeError) -> String {
    use quick_xml::DeError::*;
    match e {
        Custom(_) => "data".into(),
        InvalidXml(quick_xml::Error::Io(e)) => io_class(&e),
        InvalidXml(quick_xml::Error::UnexpectedEof(_)) | UnexpectedEof => "eof".into(),
        InvalidXml(e) => format!("syntax:{}", e.to_string().chars().take(40).collect::<String>()),
        InvalidInt(_) | InvalidFloat(_) | InvalidBoolean(_) => "data".into(),
        e => format!("syntax:{}", e.to_string().chars().take(40).collect::<String>()),
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Decoded {
    pub fields: Vec<(usize, Got)>,
    /// Bytes the reader had handed out afterwards (readers only).
    pub end: Result<usize, String>,
}
/// A record of a stream.
#[derive(Clone, Debug)]
pub struct Rec {
    pub kinds: Vec<Kind>,
    pub shape: Shape,
}

pub struct Stats {
    pub short: Cell<u64>,
    pub interrupted: Cell<u64>,
    pub failed: Cell<bool>,
    pub eof: Cell<bool>,
}
impl Stats {
    pub fn new() -> Stats {
        Stats { short: Cell::new(0), interrupted: Cell::new(0), failed: Cell::new(false), eof: Cell::new(false) }
    }
    fn take(&self, r: &PlanReader<'_>) {
        self.short.set(self.short.get() + r.short);
        self.interrupted.set(self.interrupted.get() + r.interrupted);
        self.failed.set(self.failed.get() | r.failed);
        self.eof.set(self.eof.get() | r.eof);
    }
    pub fn book(&self, cx: &Cx) {
        let mut g = cx.lock();
        for (k, n) in [("short-read", self.short.get()), ("read-interrupted", self.interrupted.get()), ("read-error", self.failed.get() as u64)] {
            if n > 0 {
                *g.faults.entry(k).or_insert(0) += n;
            }
        }
    }
}

fn with_context<T>(rec: &Rec, real: bool, f: impl FnOnce() -> T) -> (Vec<(usize, Got)>, T) {
    let out = Rc::new(Sink::default());
    CONTEXT.with(|c| *c.borrow_mut() = Some(Context { kinds: rec.kinds.clone(), shape: rec.shape, real, out: out.clone() }));
    let r = f();
    let fields = out.borrow().clone();
    (fields, r)
}

/// Decode consecutive records; stops after the first error. `real`: by fixnum, otherwise the
/// shadow. Trees take a single record.
pub fn decode(route: Route, bytes: &[u8], plan: &Plan, recs: &[Rec], real: bool, stats: &Stats) -> Vec<Decoded> {
    let mut got: Vec<Decoded> = vec![];
    macro_rules! each {
        ($rec:ident, $pos:expr, $class:ident, $body:expr) => {
            for $rec in recs {
                let (fields, r) = with_context($rec, real, || $body);
                let stop = r.is_err();
                got.push(Decoded { fields, end: r.map(|_| $pos).map_err($class) });
                if stop {
                    break;
                }
            }
        };
    }
    fn seed<'a>(rec: &'a Rec, real: bool, out: &'a Sink) -> DocSeed<'a> {
        DocSeed { kinds: &rec.kinds, shape: rec.shape, real, out }
    }
    macro_rules! seeds {
        ($d:expr, $pos:expr, $class:ident) => {
            for rec in recs {
                let out = Sink::default();
                let r = seed(rec, real, &out).deserialize(&mut $d);
                let stop = r.is_err();
                got.push(Decoded { fields: out.take(), end: r.map(|_| $pos).map_err($class) });
                if stop {
                    break;
                }
            }
        };
    }
    let mut rd = PlanReader::new(bytes, plan);
    match route {
        Route::JsonSlice => {
            let mut d = serde_json::Deserializer::from_slice(bytes);
            seeds!(d, 0, json_class);
        }
        Route::JsonStr => match std::str::from_utf8(bytes) {
            Ok(s) => {
                let mut d = serde_json::Deserializer::from_str(s);
                seeds!(d, 0, json_class);
            }
            Err(_) => got.push(Decoded { fields: vec![], end: Err("syntax".into()) }),
        },
        Route::JsonReader => {
            if plan.buffer > 0 {
                let mut d = serde_json::Deserializer::from_reader(io::BufReader::with_capacity(plan.buffer, &mut rd));
                seeds!(d, 0, json_class);
            } else {
                let mut d = serde_json::Deserializer::from_reader(&mut rd);
                seeds!(d, 0, json_class);
            }
        }
        Route::JsonTree | Route::JsonTreeRef => {
            let mut vals = vec![];
            let mut bad = None;
            let mut it = serde_json::Deserializer::from_slice(bytes).into_iter::<serde_json::Value>();
            for _ in recs {
                match it.next() {
                    Some(Ok(v)) => vals.push(v),
                    Some(Err(e)) => {
                        bad = Some(json_class(e));
                        break;
                    }
                    None => {
                        bad = Some("eof".to_string());
                        break;
                    }
                }
            }
            for (v, rec) in vals.into_iter().zip(recs) {
                let out = Sink::default();
                let s = seed(rec, real, &out);
                let r = if route == Route::JsonTree { s.deserialize(v) } else { s.deserialize(&v) };
                let stop = r.is_err();
                got.push(Decoded { fields: out.take(), end: r.map(|_| 0).map_err(json_class) });
                if stop {
                    return got;
                }
            }
            if let Some(b) = bad {
                got.push(Decoded { fields: vec![], end: Err(b) });
            }
        }
        Route::JsonFlat => each!(rec, 0, json_class, serde_json::from_slice::<Flat>(bytes)),
        Route::JsonUntagged => each!(rec, 0, json_class, serde_json::from_slice::<Untagged>(bytes)),
        Route::JsonTagged => each!(rec, 0, json_class, serde_json::from_slice::<Tagged>(bytes)),
        Route::CborSlice => {
            let mut s = bytes;
            each!(rec, bytes.len() - s.len(), cbor_class, ciborium::de::from_reader::<Erased, _>(&mut s));
        }
        Route::CborReader => {
            each!(rec, rd.pos, cbor_class, ciborium::de::from_reader::<Erased, _>(&mut rd));
        }
        Route::CborTree => {
            let mut s = bytes;
            for rec in recs {
                let r = ciborium::de::from_reader::<ciborium::Value, _>(&mut s);
                match r {
                    Ok(v) => {
                        let (fields, r) = with_context(rec, real, || v.deserialized::<Erased>());
                        let stop = r.is_err();
                        got.push(Decoded { fields, end: r.map(|_| bytes.len() - s.len()).map_err(|_| "data".into()) });
                        if stop {
                            break;
                        }
                    }
                    Err(e) => {
                        got.push(Decoded { fields: vec![], end: Err(cbor_class(e)) });
                        break;
                    }
                }
            }
        }
        Route::BinSlice => {
            let mut d = bincode::Deserializer::from_slice(bytes, bin());
            seeds!(d, 0, bin_class);
        }
        Route::BinVarSlice => {
            let mut d = bincode::Deserializer::from_slice(bytes, bin_var());
            seeds!(d, 0, bin_class);
        }
        Route::BinReader => {
            each!(rec, rd.pos, bin_class, bin().deserialize_from::<_, Erased>(&mut rd));
        }
        Route::BinVarReader => {
            each!(rec, rd.pos, bin_class, bin_var().deserialize_from::<_, Erased>(&mut rd));
        }
        Route::TomlStr => match std::str::from_utf8(bytes) {
            Ok(s) => each!(rec, 0, toml_class, toml::from_str::<Erased>(s)),
            Err(_) => got.push(Decoded { fields: vec![], end: Err("syntax".into()) }),
        },
        Route::TomlSlice => each!(rec, 0, toml_class, toml::from_slice::<Erased>(bytes)),
        Route::TomlTree => match toml::from_slice::<toml::Table>(bytes) {
            Ok(t) => each!(rec, 0, toml_class, t.clone().try_into::<Erased>()),
            Err(_) => got.push(Decoded { fields: vec![], end: Err("syntax".into()) }),
        },
        Route::XmlStr => match std::str::from_utf8(bytes) {
            Ok(s) => each!(rec, 0, xml_class, quick_xml::de::from_str::<Erased>(s)),
            Err(_) => got.push(Decoded { fields: vec![], end: Err("syntax".into()) }),
        },
        Route::XmlReader => {
            if plan.buffer > 0 {
                each!(rec, 0, xml_class, quick_xml::de::from_reader::<_, Erased>(io::BufReader::with_capacity(plan.buffer, &mut rd)));
            } else {
                each!(rec, 0, xml_class, quick_xml::de::from_reader::<_, Erased>(&mut rd));
            }
        }
    }
    stats.take(&rd);
    got
}

/// Encode one record into a writer.
pub fn encode<W: io::Write>(f: Format, doc: &Doc<'_>, mut w: W) -> Result<(), String> {
    match f {
        Format::Json => serde_json::to_writer(w, doc).map_err(json_class),
        Format::JsonPretty => serde_json::to_writer_pretty(w, doc).map_err(json_class),
        Format::Cbor => ciborium::ser::into_writer(doc, w).map_err(|e| match e {
            ciborium::ser::Error::Io(e) => io_class(&e),
            ciborium::ser::Error::Value(_) => "data".into(),
        }),
        Format::Bin => bin().serialize_into(&mut w, doc).map_err(bin_class),
        Format::BinVar => bin_var().serialize_into(&mut w, doc).map_err(bin_class),
        Format::Toml => match toml::to_string(doc) {
            Ok(s) => w.write_all(s.as_bytes()).map_err(|e| io_class(&e)),
            Err(e) => Err(format!("data:{e}")),
        },
        Format::Xml => quick_xml::se::to_writer(w, doc).map_err(xml_class),
    }
}
pub fn to_vec(f: Format, doc: &Doc<'_>) -> Result<Vec<u8>, String> {
    let mut v = vec![];
    encode(f, doc, &mut v).map(|()| v)
}

/// Real against shadow over the same delivery, record by record. Returns what the real decoder
/// answered (already judged).
pub fn check(route: Route, bytes: &[u8], plan: &Plan, recs: &[Rec], stats: &Stats) -> crate::core::Res<Vec<(Decoded, Judged)>> {
    use crate::core::*;
    let nil = Stats::new();
    let shadow = calm("the format itself (shadow)", || decode(route, bytes, plan, recs, false, &nil))?;
    let what = || format!("{route:?} of {:?} with {plan:?}", Bytes(bytes));
    let real = calm(&what(), || decode(route, bytes, plan, recs, true, stats))?;
    let mut out = vec![];
    for (i, s) in shadow.iter().enumerate() {
        let Some(r) = real.get(i) else { return viol("stream", format!("{}: record {i} missing", what())) };
        let kinds = &recs[i].kinds;
        let j = match judge(kinds, &r.fields, &s.fields, r.end.is_err(), s.end.is_err()) {
            Ok(j) => j,
            Err(e) => return viol("decode", format!("{} record {i}: {e}; real {:?}, format {:?}", what(), r.end, s.end)),
        };
        match j {
            Judged::Complete if r.end != s.end => return viol("framing", format!("{} record {i}: consumed {:?}, format consumes {:?}", what(), r.end, s.end)),
            Judged::FormatFailed if r.end != s.end => {
                return viol("failure-masked", format!("{} record {i}: reported {:?}, the format itself reports {:?}", what(), r.end, s.end))
            }
            Judged::Rejected => {
                let e = r.end.as_ref().unwrap_err();
                if e != "data" {
                    return viol("complaint", format!("{} record {i}: an amount out of reach is reported as {e:?}", what()));
                }
            }
            _ => {}
        }
        out.push((r.clone(), j));
        if j != Judged::Complete {
            break;
        }
    }
    Ok(out)
}

pub struct Bytes<'a>(pub &'a [u8]);
impl std::fmt::Debug for Bytes<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        if self.0.iter().all(|b| (32..127).contains(b) || b"\n\r\t".contains(b)) {
            write!(f, "{:?}", String::from_utf8_lossy(self.0))
        } else {
            write!(f, "0x")?;
            for b in self.0.iter().take(200) {
                write!(f, "{b:02x}")?;
            }
            Ok(())
        }
    }
}
