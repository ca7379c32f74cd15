//! C11: a device whose memory runs out: requests are granted and refused as the run decides.
use crate::core::*;
use crate::gen;
use crate::nodes::Build;
use fxmodel::codes::*;
use fxmodel::{accepts, expect, Expect, Ty};

const HUMAN: i64 = 8;
const SOME: i64 = 32;
const MODULES: i64 = 7;
const TOKENS: i64 = 16;
/// Types whose encodings every build offers.
const WIRE: [(u32, u32); 18] = [
    (16, 0), (16, 2), (16, 4), (32, 0), (32, 4), (32, 9), (64, 0), (64, 2), (64, 9), (64, 18), (128, 0), (128, 9),
    (128, 18), (128, 38), (32, 2), (64, 6), (128, 1), (128, 25),
];

struct Call {
    op: u32,
    k: i64,
    a: i128,
    b: i128,
    text: Vec<u8>,
    want: Option<Expect>,
}

fn call(cx: &Cx, ty: Ty, wire: bool) -> Call {
    let raw = |cx: &Cx| gen::raw(cx, ty);
    let kind = if wire { cx.below(8) } else { cx.below(3) };
    let text = |cx: &Cx| gen::text(cx, ty).into_bytes();
    match kind {
        0 | 1 | 2 => {
            let op = gen::op(cx, ty);
            let (mut a, mut b) = (raw(cx), raw(cx));
            let s = gen::shape(cx, ty, op, a, b);
            (a, b) = (s.a.unwrap_or(a), s.b.unwrap_or(b));
            let mut op = if op == CONSTS { CMP } else { op };
            let mut want = expect(ty, op, s.k, a, b, &s.text);
            if matches!(want, Expect::Undefined) {
                op = INTEGRAL;
                want = expect(ty, op, s.k, a, b, &s.text);
            }
            Call { op, k: s.k, a, b, text: s.text, want: Some(want) }
        }
        3 => {
            let room = if cx.chance(1, 3) { cx.range(-1, 6) as i128 } else { 400 };
            Call { op: SER, k: cx.below(MODULES as u64) as i64 + HUMAN * cx.below(2) as i64, a: raw(cx), b: (room << 1) + cx.below(2) as i128, text: vec![], want: None }
        }
        4 => {
            let t = cx.below(TOKENS as u64) as i64;
            let m = cx.below(MODULES as u64) as i64;
            let a = match t {
                8 if cx.chance(1, 4) => cx.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1e300, -1e300]).to_bits() as i128,
                8 => gen::float(cx, ty).to_bits() as i128,
                4..=7 if cx.chance(1, 2) => raw(cx) / ty.coef(),
                _ => raw(cx),
            };
            let mut tx = text(cx);
            if cx.chance(1, 10) && !tx.is_empty() {
                let i = cx.usize(tx.len());
                tx[i] = 0xff;
                cx.fault("damaged-text");
            }
            Call { op: DE, k: m + HUMAN * cx.below(2) as i64 + SOME * cx.below(2) as i64 + 64 * t, a, b: 0, text: tx, want: None }
        }
        5 => {
            // (the codec's own Option boxes the causes of its complaints)
            let k = *cx.pick(&[0, 1, 3]);
            let raw_bytes = raw(cx).to_le_bytes();
            let full = raw_bytes[..ty.bits as usize / 8].to_vec();
            let comp = fxmodel::compact(raw(cx) as u128 & (u128::MAX >> (128 - ty.bits)));
            let mut t = match k {
                0 => full,
                1 => comp,
                _ => [full, comp].concat(),
            };
            if cx.chance(1, 3) {
                t.truncate(cx.usize(t.len() + 1));
                cx.fault("truncated");
            }
            if cx.chance(1, 6) && !t.is_empty() {
                let i = cx.usize(t.len());
                t[i] ^= 1 << cx.below(8);
                cx.fault("bit-flip");
            }
            Call { op: SCALE_READ, k, a: 0, b: cx.below(2) as i128, text: t, want: None }
        }
        6 => {
            let k = cx.below(7) as i64;
            let a = if k == 4 { gen::float(cx, ty).to_bits() as i128 } else { raw(cx) };
            let room = if cx.chance(1, 2) { cx.below(40) } else { 400 };
            Call { op: ERR_TEXT, k, a, b: room as i128, text: text(cx), want: None }
        }
        _ => {
            let room = if cx.chance(1, 2) { cx.below(45) } else { 400 };
            Call { op: SINK, k: cx.below(4) as i64, a: raw(cx), b: room as i128, text: vec![], want: None }
        }
    }
}

pub fn run(cx: &Cx, builds: &[Build]) -> Res {
    let wire = cx.chance(2, 3);
    let (bits, prec) = if wire {
        *cx.pick(&WIRE)
    } else {
        let p: &[(u32, u32)] = &[(16, 4), (32, 9), (64, 18), (128, 38)];
        let (b, m) = *cx.pick(p);
        (b, cx.below(m as u64 + 1) as u32)
    };
    let ty = Ty { bits, prec };
    let code = bits * 64 + prec;
    let pool: Vec<usize> = (0..builds.len()).filter(|i| builds[*i].types.contains(&code)).collect();
    cx.event(format!("device with {}", ty.name()));
    // how often memory is out at the moment of a call
    let scarce = 1 + cx.below(1000);
    for _ in 0..2 + cx.usize(14) {
        let c = call(cx, ty, wire);
        let bld = &builds[*cx.pick(&pool)];
        let name = format!("build {}: {} {} k={} a={} b={} text={:?}", bld.name, ty.name(), op_name(c.op), c.k, c.a, c.b, String::from_utf8_lossy(&c.text));
        let usual = bld.call(c.op, code, c.k, c.a, c.b, &c.text);
        cx.op();
        if usual.status == PANIC || usual.status == UNSUPPORTED {
            return viol("panic", format!("{name}: answered {usual:?}"));
        }
        if let Some(w) = &c.want {
            let mut seen = usual.clone();
            if c.op == CMP {
                seen.w &= 0x17 | 8 * (c.a == c.b) as i64;
            }
            if !accepts(ty, w, &seen) {
                return viol("wrong-answer", format!("{name}: answered {usual:?}, law {w:?}"));
            }
        }
        // Watch first: what asks for memory is reported without being refused.
        let (watched, n) = bld.starve(c.op, code, c.k, c.a, c.b, &c.text, false);
        if n > 0 {
            return viol("asks-for-memory", format!("{name}: {n} requests for memory"));
        }
        if cx.chance(scarce, 1000) {
            cx.fault("memory-refused");
            let (starved, n) = bld.starve(c.op, code, c.k, c.a, c.b, &c.text, true);
            cx.event(format!("{name} -> {} {}", starved.status, starved.v));
            if starved != usual || n > 0 {
                return viol("changed-without-memory", format!("{name}: usually {usual:?}, without memory {starved:?} ({n} requests)"));
            }
        } else {
            cx.event(format!("{name} -> {} {}", watched.status, watched.v));
            if watched != usual {
                return viol("changed-answer", format!("{name}: {usual:?}, then {watched:?}"));
            }
        }
        if usual.status != OK {
            cx.probe("failed-without-memory");
        }
    }
    Ok(())
}
