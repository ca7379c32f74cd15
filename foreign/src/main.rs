//! A replica on a machine of another kind (word size, byte order), interpreted: re-executes what the
//! replicas of a simulated run did, from their tape, and compares every answer.
//!
//!     fxforeign TAPE FROM STRIDE SECONDS
use fxsurface::{Args, Out, PANIC};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

struct Reader<'a>(&'a [u8]);
impl<'a> Reader<'a> {
    fn take(&mut self, n: usize) -> &'a [u8] {
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        a
    }
    fn u32(&mut self) -> u32 {
        u32::from_le_bytes(self.take(4).try_into().unwrap())
    }
    fn i64(&mut self) -> i64 {
        i64::from_le_bytes(self.take(8).try_into().unwrap())
    }
    fn i128(&mut self) -> i128 {
        i128::from_le_bytes(self.take(16).try_into().unwrap())
    }
    fn bytes(&mut self) -> &'a [u8] {
        let n = self.u32() as usize;
        self.take(n)
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let arg: Vec<String> = std::env::args().collect();
    let data = std::fs::read(&arg[1]).unwrap();
    let (from, stride): (usize, usize) = (arg[2].parse().unwrap(), arg[3].parse().unwrap());
    let limit = Duration::from_secs(arg[4].parse().unwrap());
    let t0 = Instant::now();
    println!("MACHINE {} bit {} endian", usize::BITS, if cfg!(target_endian = "big") { "big" } else { "little" });
    let mut r = Reader(&data);
    let (mut i, mut calls) = (0, 0u64);
    while !r.0.is_empty() {
        let (op, ty, k, a, b) = (r.u32(), r.u32(), r.i64(), r.i128(), r.i128());
        let text = r.bytes();
        let want = Out { status: r.u32(), v: r.i128(), w: r.i64(), bytes: r.bytes().to_vec() };
        i += 1;
        if (i - 1) % stride != from {
            continue;
        }
        if t0.elapsed() > limit {
            break;
        }
        println!("AT {}", i - 1);
        let got = catch_unwind(AssertUnwindSafe(|| fxsurface::call(Args { op, ty, k, a, b, text })))
            .unwrap_or(Out { status: PANIC, ..Out::default() });
        calls += 1;
        if got != want {
            println!("DIFF {} {}", i - 1, if got.status == PANIC { "panic" } else { "differs" });
            println!("CALL {} k={k} a={a} b={b} text={:?}", fxsurface::op_name(op), String::from_utf8_lossy(text));
            println!("GOT status={} v={} w={} bytes={:?}", got.status, got.v, got.w, got.bytes);
            println!("WANT status={} v={} w={} bytes={:?}", want.status, want.v, want.w, want.bytes);
            println!("CALLS {calls}");
            std::process::exit(1);
        }
    }
    println!("CALLS {calls}");
}
