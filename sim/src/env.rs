//! The simulated environment: readers, writers, sinks and a disk. Each call asks the run's
//! decision source what happens.
use crate::core::{Crash, Cx};
use std::collections::BTreeMap;
use std::io;

/// Which faults a run may inject into streams (chosen per run, swarm style), per mille.
#[derive(Clone, Copy, Default, Debug)]
pub struct Faults {
    pub short: u64,
    pub eintr: u64,
    pub error: u64,
    pub full: u64,
    pub crash: u64,
}
impl Faults {
    pub fn swarm(cx: &Cx) -> Faults {
        let r = |cx: &Cx, hi: u64| if cx.chance(1, 2) { 1 + cx.below(hi) } else { 0 };
        Faults { short: r(cx, 700), eintr: r(cx, 300), error: r(cx, 60), full: r(cx, 40), crash: r(cx, 40) }
    }
    /// Only deviations a correct caller must absorb.
    pub fn benign(cx: &Cx) -> Faults {
        Faults { error: 0, full: 0, crash: 0, ..Faults::swarm(cx) }
    }
    pub const NONE: Faults = Faults { short: 0, eintr: 0, error: 0, full: 0, crash: 0 };
}

pub const MARK: &str = "simulated device failure #";

/// The n-th injected device error of a run; distinguishable from any other error.
pub fn device_error(cx: &Cx) -> (io::Error, io::ErrorKind, u64) {
    let kind = *cx.pick(&[
        io::ErrorKind::Other,
        io::ErrorKind::PermissionDenied,
        io::ErrorKind::ConnectionReset,
        io::ErrorKind::TimedOut,
        io::ErrorKind::WouldBlock,
        io::ErrorKind::BrokenPipe,
    ]);
    let n = cx.below(1000);
    (io::Error::new(kind, format!("{MARK}{n}.")), kind, n)
}

/// A reader over bytes, with chunking, interruptions and at most one failure point.
pub struct SimReader {
    cx: Cx,
    data: Vec<u8>,
    pos: usize,
    f: Faults,
    /// Fail when this many bytes have been delivered.
    pub fail_at: Option<usize>,
    /// Panic (caller torn down) when this many bytes have been delivered.
    pub crash_at: Option<usize>,
    pub failed: Option<(io::ErrorKind, u64)>,
    pub eof_seen: bool,
}
impl SimReader {
    pub fn new(cx: &Cx, data: Vec<u8>, f: Faults) -> SimReader {
        SimReader { cx: cx.clone(), data, pos: 0, f, fail_at: None, crash_at: None, failed: None, eof_seen: false }
    }
    pub fn consumed(&self) -> usize {
        self.pos
    }
    fn avail(&mut self, want: usize) -> io::Result<usize> {
        if self.f.eintr > 0 && self.cx.chance(self.f.eintr, 1000) {
            self.cx.fault("read-interrupted");
            return Err(io::ErrorKind::Interrupted.into());
        }
        if self.crash_at.map_or(false, |c| self.pos >= c) {
            self.cx.fault("crash-in-read");
            std::panic::panic_any(Crash);
        }
        if self.fail_at.map_or(false, |c| self.pos >= c) {
            let (e, k, n) = device_error(&self.cx);
            self.failed = Some((k, n));
            self.cx.fault("read-error");
            return Err(e);
        }
        let mut end = self.data.len();
        for c in [self.fail_at, self.crash_at].into_iter().flatten() {
            end = end.min(c.max(self.pos));
        }
        let mut n = (end - self.pos).min(want);
        if n > 1 && self.f.short > 0 && self.cx.chance(self.f.short, 1000) {
            n = 1 + self.cx.usize(n - 1);
            self.cx.fault("short-read");
        }
        if n == 0 && want > 0 {
            self.eof_seen = true;
        }
        Ok(n)
    }
}
impl io::Read for SimReader {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = self.avail(buf.len())?;
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

/// A buffered reader whose buffer boundaries are decided by the simulator.
pub struct SimBufReader {
    pub inner: SimReader,
    window: usize,
}
impl SimBufReader {
    pub fn new(inner: SimReader) -> SimBufReader {
        SimBufReader { inner, window: 0 }
    }
}
impl io::Read for SimBufReader {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        io::Read::read(&mut self.inner, buf)
    }
}
impl io::BufRead for SimBufReader {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        if self.window == 0 {
            self.window = self.inner.avail(64)?;
        }
        Ok(&self.inner.data[self.inner.pos..self.inner.pos + self.window])
    }
    fn consume(&mut self, n: usize) {
        self.window -= n;
        self.inner.pos += n;
    }
}

/// A writer that may write short, be interrupted, fail, be full, or be torn down.
pub struct SimWriter {
    cx: Cx,
    pub data: Vec<u8>,
    f: Faults,
    pub capacity: Option<usize>,
    pub fail_at: Option<usize>,
    pub crash_at: Option<usize>,
    pub failed: Option<(io::ErrorKind, u64)>,
}
impl SimWriter {
    pub fn new(cx: &Cx, f: Faults) -> SimWriter {
        SimWriter { cx: cx.clone(), data: vec![], f, capacity: None, fail_at: None, crash_at: None, failed: None }
    }
}
impl SimWriter {
    /// Half of the failures are over once reported.
    fn recover(&mut self) {
        if self.cx.chance(1, 2) {
            self.fail_at = None;
            self.capacity = None;
            self.f.error = 0;
        }
    }
}
impl io::Write for SimWriter {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let f = self.f;
        if f.eintr > 0 && self.cx.chance(f.eintr, 1000) {
            self.cx.fault("write-interrupted");
            return Err(io::ErrorKind::Interrupted.into());
        }
        let mut room = buf.len();
        if let Some(c) = self.crash_at {
            if self.data.len() >= c {
                self.cx.fault("crash-in-write");
                std::panic::panic_any(Crash);
            }
            room = room.min(c - self.data.len());
        }
        if let Some(c) = self.fail_at {
            if self.data.len() >= c || (f.error > 0 && self.cx.chance(f.error, 1000)) {
                let (e, k, n) = device_error(&self.cx);
                self.failed = Some((k, n));
                self.cx.fault("write-error");
                self.recover();
                return Err(e);
            }
            room = room.min(c - self.data.len());
        }
        if let Some(c) = self.capacity {
            if self.data.len() >= c {
                let n = self.cx.below(1000);
                self.failed = Some((io::ErrorKind::StorageFull, n));
                self.cx.fault("disk-full");
                self.recover();
                return Err(io::Error::new(io::ErrorKind::StorageFull, format!("{MARK}{n}.")));
            }
            room = room.min(c - self.data.len());
        }
        let mut n = room;
        if n > 1 && f.short > 0 && self.cx.chance(f.short, 1000) {
            n = 1 + self.cx.usize(n - 1);
            self.cx.fault("short-write");
        }
        self.data.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// Append-only files with a volatile tail.
#[derive(Default, Clone)]
pub struct Disk {
    files: BTreeMap<String, File>,
}
#[derive(Default, Clone)]
struct File {
    data: Vec<u8>,
    durable: usize,
}
impl Disk {
    pub fn append(&mut self, name: &str, bytes: &[u8]) {
        self.files.entry(name.to_string()).or_default().data.extend_from_slice(bytes);
    }
    pub fn sync(&mut self, name: &str) {
        let f = self.files.entry(name.to_string()).or_default();
        f.durable = f.data.len();
    }
    /// Cut the file (recovery discards a torn tail); takes effect durably.
    pub fn truncate(&mut self, name: &str, len: usize) {
        let f = self.files.entry(name.to_string()).or_default();
        f.data.truncate(len);
        f.durable = f.data.len();
    }
    pub fn replace(&mut self, name: &str, bytes: &[u8]) {
        // write to a temporary name, sync, rename: atomic
        self.files.insert(name.to_string(), File { data: bytes.to_vec(), durable: bytes.len() });
    }
    pub fn read(&self, name: &str) -> Vec<u8> {
        self.files.get(name).map(|f| f.data.clone()).unwrap_or_default()
    }
    pub fn len(&self, name: &str) -> usize {
        self.files.get(name).map_or(0, |f| f.data.len())
    }
    /// Power is lost: each unsynced tail survives up to some byte, possibly with a zeroed sector end.
    pub fn crash(&mut self, cx: &Cx) {
        for f in self.files.values_mut() {
            let tail = f.data.len() - f.durable;
            if tail > 0 {
                let keep = cx.usize(tail + 1);
                if keep < tail {
                    cx.fault("torn-write");
                }
                f.data.truncate(f.durable + keep);
                if keep > 0 && cx.chance(1, 6) {
                    let z = 1 + cx.usize(keep);
                    let n = f.data.len();
                    for b in &mut f.data[n - z..] {
                        *b = 0;
                    }
                    cx.fault("zeroed-sector");
                }
            }
            f.durable = f.data.len();
        }
    }
}

/// Damage bytes: flips, losses, duplicates, swaps, truncation. Returns the number of changes.
pub fn damage(cx: &Cx, data: &mut Vec<u8>) -> usize {
    let n = 1 + cx.usize(3);
    for _ in 0..n {
        if data.is_empty() {
            break;
        }
        let i = cx.usize(data.len());
        match cx.below(8) {
            0 | 1 => {
                data[i] ^= 1 << cx.below(8);
                cx.fault("bit-flip");
            }
            2 => {
                data.remove(i);
                cx.fault("byte-lost");
            }
            3 => {
                let b = data[i];
                data.insert(i, b);
                cx.fault("byte-doubled");
            }
            4 => {
                let j = cx.usize(data.len());
                data.swap(i, j);
                cx.fault("bytes-swapped");
            }
            5 => {
                data.truncate(i);
                cx.fault("truncated");
            }
            6 => {
                // a plausible character instead
                data[i] = *cx.pick(b"0123456789.-+ e\"_");
                cx.fault("byte-replaced");
            }
            _ => {
                let j = cx.usize(data.len());
                let (lo, hi) = (i.min(j), i.max(j));
                data.drain(lo..hi);
                cx.fault("range-lost");
            }
        }
    }
    n
}
