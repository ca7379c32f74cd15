//! C10: threads working on amounts with nothing between them, for the interpreter (Miri) to schedule.
//! The interpreter's seed decides the workload (through std's hash seed), every preemption, every
//! stale read that the memory model allows, and every address.
#![allow(dead_code)]
#[path = "../../sim/src/core.rs"]
mod core;

use crate::core::*;
use fixnum::{typenum::*, FixedPoint};
use fxmodel::codes::*;
use fxmodel::Ty;
use fxsurface::{Args, Out};
use std::fmt::Write as _;
use std::hash::{BuildHasher, Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU32, Ordering::Relaxed};

fn shareable<T: Send + Sync + Copy + std::panic::UnwindSafe + std::panic::RefUnwindSafe + Unpin>() {}
fn shareable_error<T: Send + Sync + Clone + std::error::Error>() {}
fn every_type_is_shareable() {
    shareable::<FixedPoint<i16, U2>>();
    shareable::<FixedPoint<i32, U4>>();
    shareable::<FixedPoint<i64, U9>>();
    shareable::<FixedPoint<i128, U18>>();
    shareable_error::<fixnum::ArithmeticError>();
    shareable_error::<fixnum::ConvertError>();
}

const WIRE: [(u32, u32); 18] = [
    (16, 0), (16, 2), (16, 4), (32, 0), (32, 4), (32, 9), (64, 0), (64, 2), (64, 9), (64, 18), (128, 0), (128, 9),
    (128, 18), (128, 38), (32, 2), (64, 6), (128, 1), (128, 25),
];
const FORMS: u64 = 18;

struct Job {
    ty: Ty,
    op: u32,
    k: i64,
    a: i128,
    b: i128,
    text: Vec<u8>,
}
impl Job {
    fn show(&self) -> String {
        format!("{} {} k={} a={} b={} text={:?}", self.ty.name(), op_name(self.op), self.k, self.a, self.b, String::from_utf8_lossy(&self.text))
    }
    fn run(&self) -> Out {
        let x = Args { op: self.op, ty: self.ty.bits * 64 + self.ty.prec, k: self.k, a: self.a, b: self.b, text: &self.text };
        catch_unwind(AssertUnwindSafe(|| fxsurface::call(x))).unwrap_or(Out { status: PANIC, ..Out::default() })
    }
}

const OPS: [u32; 46] = [
    CADD, CSUB, CMUL_INT, INT_CMUL, RMUL, RDIV, RDIV_INT, INT_RDIV, INT_RDIV_INT, SAT_ADD, SAT_SUB, SAT_MUL_INT,
    INT_SAT_MUL, SAT_RMUL, HALF_SUM, RTZ_BY, INT_CADD, INT_CSUB, INT_CMUL_INT, CNEG, ABS, RECIP, INTEGRAL, FLOOR, CEIL,
    ROUND, NEXT_POW10, RSQRT, FROM_DECIMAL, TO_DECIMAL, FROM_INT, TO_F64, FROM_F64, CMP, SIGNUM, CONSTS, PARSE,
    PARSE_EXACT, DISPLAY, DEBUG, RMUL, RDIV, RSQRT, PARSE, DISPLAY, PARSE_EXACT,
];

/// (The interpreter is slow: values are made cheaply.)
fn raw(cx: &Cx, ty: Ty) -> i128 {
    let fit = |v: i128| ((v as u128) << (128 - ty.bits)) as i128 >> (128 - ty.bits);
    match cx.below(8) {
        0 => cx.range(-3, 3) as i128,
        1 => 1i128 << (ty.bits - 1 - cx.below(3) as u32),
        2 => fit(i128::MAX >> (128 - ty.bits)) - cx.below(2) as i128,
        3 => fit(cx.u128() as i128),
        4 => fit(cx.u128() as i128 >> cx.below(127)),
        _ => fit(10i128.pow(cx.below(1 + ty.prec as u64) as u32).wrapping_mul(cx.range(-12, 12) as i128) / (1 + cx.below(3) as i128)),
    }
}

fn job(cx: &Cx, ops: &[u32], types: &[Ty], pool: &[i128]) -> Job {
    let ty = *cx.pick(types);
    let fit = |v: i128| ((v as u128) << (128 - ty.bits)) as i128 >> (128 - ty.bits);
    let val = |cx: &Cx| fit(*cx.pick(pool));
    let op = *cx.pick(ops);
    let (a, mut b) = (val(cx), val(cx));
    let mut k = cx.range(-1, 1);
    let mut text = vec![];
    match op {
        ENCODE => {
            k = cx.below(FORMS) as i64;
            b = cx.below(2) as i128;
        }
        DECODE => {
            k = cx.below(FORMS) as i64;
            text = match cx.below(4) {
                0 => ty.display(a).into_bytes(),
                1 => format!("\"{}\"", ty.display(a)).into_bytes(),
                2 => a.to_le_bytes()[..ty.bits as usize / 8].to_vec(),
                _ => (a as f64).to_le_bytes().to_vec(),
            };
        }
        SER => {
            k = cx.below(7) as i64 + 8 * cx.below(2) as i64;
            b = (if cx.chance(1, 4) { cx.range(-1, 4) as i128 } else { 400 } << 1) + cx.below(2) as i128;
        }
        DE => {
            k = cx.below(7) as i64 + 8 * cx.below(2) as i64 + 32 * cx.below(2) as i64 + 64 * cx.below(16) as i64;
            text = ty.display(val(cx)).into_bytes();
        }
        SCALE_READ => {
            k = cx.below(4) as i64;
            text = a.to_le_bytes()[..cx.usize(17)].to_vec();
        }
        SINK => {
            k = cx.below(4) as i64;
            b = if cx.chance(1, 4) { cx.below(20) as i128 } else { 400 };
        }
        ERR_TEXT => {
            k = cx.below(7) as i64;
            b = 400;
            text = b"1.x".to_vec();
        }
        PARSE | PARSE_EXACT => text = ty.display(val(cx)).into_bytes(),
        FROM_DECIMAL => k = cx.range(-2, 9),
        TO_DECIMAL => k = cx.range(-(ty.prec.min(2) as i64), 9),
        FROM_INT => k = cx.range(0, 11),
        FROM_F64 => b = (b as f64 / 8.0).to_bits() as i128,
        _ => {}
    }
    Job { ty, op, k, a, b, text }
}

struct Sink(String, Option<usize>);
impl std::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        std::thread::yield_now();
        if self.1.map_or(false, |n| self.0.len() + s.len() > n) {
            panic!("torn down");
        }
        self.0.push_str(s);
        Ok(())
    }
}
struct Fnv(u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3);
        }
    }
}

/// What a thread sees of an amount that others look at, too.
fn look<I, P>(f: &FixedPoint<I, P>, g: &FixedPoint<I, P>, tear: Option<usize>) -> (String, bool, u64, Vec<u8>)
where
    FixedPoint<I, P>: std::fmt::Display + PartialOrd + Hash + parity_scale_codec::Encode,
{
    let mut s = Sink(String::new(), tear);
    let _ = catch_unwind(AssertUnwindSafe(|| write!(s, "{f}")));
    let mut h = Fnv(0);
    f.hash(&mut h);
    (s.0, f < g, h.0, parity_scale_codec::Encode::encode(f))
}

type Seen = (String, bool, u64, Vec<u8>);
enum Task<'a> {
    Job(&'a Job),
    Look(usize, usize, Option<usize>),
}

static HARNESS: AtomicU32 = AtomicU32::new(1);

fn main() {
    every_type_is_shareable();
    // (the threads under test must not meet at the lock of stderr)
    std::panic::set_hook(Box::new(|i| {
        if i.location().map_or(false, |l| l.file().contains("race") && l.file().ends_with("main.rs")) && HARNESS.load(Relaxed) == 1 {
            println!("HARNESS {i}");
        }
    }));
    // The workload: of the interpreter's own seed, or as told (`work kept-calls`, for a minimised replay).
    let args: Vec<String> = std::env::args().collect();
    let work: u64 = match args.get(1) {
        Some(w) => w.parse().unwrap(),
        None => std::collections::hash_map::RandomState::new().build_hasher().finish(),
    };
    let kept: Option<Vec<(usize, usize)>> = args.get(2).map(|k| {
        k.split(',').filter(|x| !x.is_empty()).map(|x| x.split_once(':').unwrap()).map(|(t, i)| (t.parse().unwrap(), i.parse().unwrap())).collect()
    });
    let cx = Cx::seeded(work);
    // few operations, types and values: threads must meet
    let mut ops = vec![];
    for _ in 0..1 + cx.usize(3) {
        ops.push(match cx.below(5) {
            0 | 1 | 2 => *cx.pick(&OPS),
            _ => *cx.pick(&[ENCODE, DECODE, SER, DE, SCALE_READ, SINK, ERR_TEXT, PARSE, DISPLAY]),
        });
    }
    let types: Vec<Ty> = (0..1 + cx.usize(2)).map(|_| *cx.pick(&WIRE)).map(|(bits, prec)| Ty { bits, prec }).collect();
    let pool: Vec<i128> = (0..2 + cx.usize(3)).map(|_| raw(&cx, types[0])).collect();
    let threads = 2 + cx.usize(2);
    let each = 3 + cx.usize(5);
    let keep = |t: usize, i: usize| kept.as_ref().map_or(true, |k| k.contains(&(t, i)));
    let jobs: Vec<Vec<Job>> = (0..threads).map(|_| (0..each).map(|_| job(&cx, &ops, &types, &pool)).collect()).collect();
    let shared64: Vec<FixedPoint<i64, U9>> = pool.iter().map(|v| FixedPoint::from_bits(*v as i64)).collect();
    let shared128: Vec<FixedPoint<i128, U18>> = pool.iter().map(|v| FixedPoint::from_bits(*v)).collect();
    let scripts: Vec<Vec<Task>> = jobs
        .iter()
        .map(|js| {
            js.iter()
                .map(|j| {
                    if cx.chance(1, 4) {
                        let tear = if cx.chance(1, 3) { Some(cx.usize(12)) } else { None };
                        Task::Look(cx.usize(pool.len()), cx.usize(pool.len()), tear)
                    } else {
                        Task::Job(j)
                    }
                })
                .collect()
        })
        .collect();
    let see = |i: usize, j: usize, t: Option<usize>| -> (Seen, Seen) {
        (look(&shared64[i], &shared64[j], t), look(&shared128[i], &shared128[j], t))
    };
    // What each call answers alone: asked before the threads start, or after they have ended, so that
    // a first use also happens among threads.
    let before = cx.chance(1, 3);
    let alone_all = || -> Vec<Vec<Option<Out>>> {
        jobs.iter()
            .enumerate()
            .map(|(t, js)| js.iter().enumerate().map(|(i, j)| if keep(t, i) { Some(j.run()) } else { None }).collect())
            .collect()
    };
    let plan: Vec<String> = scripts
        .iter()
        .enumerate()
        .flat_map(|(t, ts)| ts.iter().enumerate().map(move |(i, x)| (t, i, x)))
        .filter(|(t, i, _)| keep(*t, *i))
        .map(|(t, i, _)| format!("{t}:{i}"))
        .collect();
    println!("WORK {work} {}", plan.join(","));
    HARNESS.store(0, Relaxed);
    let mut alone = if before { alone_all() } else { vec![] };

    static TICKET: AtomicU32 = AtomicU32::new(0);
    struct Did {
        at: usize,
        ticket: u32,
        out: Result<Out, (Seen, Seen)>,
    }
    let did: Vec<Vec<Did>> = std::thread::scope(|s| {
        let hs: Vec<_> = scripts
            .iter()
            .enumerate()
            .map(|(n, ts)| {
                let (see, keep) = (&see, &keep);
                s.spawn(move || {
                    ts.iter()
                        .enumerate()
                        .filter(|(i, _)| keep(n, *i))
                        .map(|(at, t)| {
                            // (relaxed: tells the order of starts without ordering anything)
                            let ticket = TICKET.fetch_add(1, Relaxed);
                            let out = match t {
                                Task::Job(j) => Ok(j.run()),
                                Task::Look(i, j, t) => Err(see(*i, *j, *t)),
                            };
                            Did { at, ticket, out }
                        })
                        .collect::<Vec<_>>()
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("harness: thread")).collect()
    });

    if !before {
        alone = alone_all();
    }
    let fail = |what: String| -> ! {
        println!("FAIL {what}");
        std::process::exit(3)
    };
    let mut order = vec![];
    let mut h = Fnv(0xcbf29ce484222325);
    let (mut n, mut torn, mut looks) = (0, 0, 0);
    HARNESS.store(1, Relaxed);
    for (t, ds) in did.iter().enumerate() {
        for d in ds {
            let i = d.at;
            n += 1;
            order.push((d.ticket, t));
            match (&scripts[t][i], &d.out) {
                (Task::Job(j), Ok(o)) => {
                    h.write(j.show().as_bytes());
                    if Some(o) != alone[t][i].as_ref() {
                        fail(format!("thread {t}: {}: among threads {o:?}, alone {:?}", j.show(), alone[t][i].as_ref().unwrap()));
                    }
                }
                (Task::Look(a, b, tear), Err(seen)) => {
                    looks += 1;
                    torn += tear.is_some() as u32;
                    let ty = [Ty { bits: 64, prec: 9 }, Ty { bits: 128, prec: 18 }];
                    for (ty, s) in ty.iter().zip([&seen.0, &seen.1]) {
                        let (x, y) = if ty.bits == 64 { (pool[*a] as i64 as i128, pool[*b] as i64 as i128) } else { (pool[*a], pool[*b]) };
                        let text = ty.display(x);
                        let ok = if tear.is_some() { text.starts_with(&s.0) } else { s.0 == text };
                        if !ok || s.1 != (x < y) || s.3 != x.to_le_bytes()[..ty.bits as usize / 8] {
                            fail(format!("thread {t}: {} raw {x} seen as {s:?}", ty.name()));
                        }
                    }
                    let again = see(*a, *b, *tear);
                    if again != *seen {
                        fail(format!("thread {t}: seen as {seen:?}, later {again:?}"));
                    }
                }
                _ => unreachable!(),
            }
        }
    }
    order.sort();
    for (_, t) in &order {
        h.write(&[*t as u8]);
    }
    let turns = order.windows(2).filter(|w| w[0].1 != w[1].1).count();
    let names: Vec<&str> = ops.iter().map(|o| op_name(*o)).collect();
    println!("RUN hash={:016x} threads={threads} calls={n} turns={turns} looks={looks} torn={torn} first_alone={before} ops={}", h.0, names.join("+"));
}
