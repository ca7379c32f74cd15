//! C14: stored text hit by bit rot, tears and mix-ups.
use crate::codec::*;
use crate::core::*;
use crate::docs::*;
use crate::env::{damage, Disk};
use crate::gen;
use crate::nodes::Build;
use fxmodel::codes::*;
use fxmodel::Ty;

/// Damage beyond single bytes: misplaced pieces, other scripts, long runs.
fn rot(cx: &Cx, data: &mut Vec<u8>) {
    for _ in 0..1 + cx.usize(3) {
        let i = cx.usize(data.len() + 1);
        let mut put = |what: &[u8], data: &mut Vec<u8>| {
            let tail = data.split_off(i);
            data.extend_from_slice(what);
            data.extend(tail);
        };
        match cx.below(9) {
            0..=3 => {
                damage(cx, data);
            }
            4 => {
                // a piece is written twice
                let j = cx.usize(data.len() + 1);
                let piece = data[i.min(j)..i.max(j)].to_vec();
                put(&piece, data);
                cx.fault("range-doubled");
            }
            5 => {
                let n = 1 + cx.usize(if cx.chance(1, 6) { 300 } else { 30 });
                let c = *cx.pick(b"0000949 1-.");
                put(&vec![c; n], data);
                cx.fault("run-inserted");
            }
            6 => {
                let s = *cx.pick(gen::STRANGE);
                put(s.as_bytes(), data);
                cx.fault("foreign-character");
            }
            7 => {
                // lands in another place
                let j = cx.usize(data.len() + 1);
                let piece: Vec<u8> = data.drain(i.min(j)..i.max(j)).collect();
                let k = cx.usize(data.len() + 1);
                let tail = data.split_off(k);
                data.extend(piece);
                data.extend(tail);
                cx.fault("range-moved");
            }
            _ => {
                // ends of the text
                if cx.chance(1, 2) {
                    data.insert(0, *cx.pick(b"+- 0."));
                } else {
                    data.push(*cx.pick(b". 0 5-"));
                }
                cx.fault("byte-added");
            }
        }
    }
}

fn judge_text(cx: &Cx, builds: &[Build], code: u32, s: &str) -> Res {
    let ty = Ty::new(code / 64, code % 64);
    for (op, exact) in [(PARSE, false), (PARSE_EXACT, true)] {
        let want = ty.parse(s, exact);
        for b in builds.iter().filter(|b| b.types.contains(&code)) {
            let o = b.call(op, code, 0, 0, 0, s.as_bytes());
            cx.op();
            let fine = match want {
                Ok(v) => o.status == OK && o.v == v,
                Err(_) => o.status == CONVERT,
            };
            if !fine {
                let got = if o.status == OK { format!("reads {}", o.v) } else { format!("status {}", o.status) };
                return viol(if o.status == PANIC { "panic" } else { "misread" }, format!("build {} {} from {s:?} (exact: {exact}): {got}, required {want:?}", b.name, ty.name()));
            }
        }
        cx.probe(match (want.is_ok(), exact) {
            (true, false) => "damaged-but-a-number",
            (true, true) => "damaged-but-exact",
            (false, false) => "rejected",
            (false, true) => "rejected-exactly",
        });
    }
    Ok(())
}

fn judge_document(cx: &Cx, bytes: &[u8]) -> Res {
    let k = Kind { code: *cx.pick(TYPES), m: *cx.pick(&[Module::Default, Module::Str, Module::OptDefault, Module::StrOption]) };
    let mut doc = vec![b'"'];
    for &b in bytes {
        match b {
            b'"' | b'\\' if cx.chance(3, 4) => doc.extend_from_slice(&[b'\\', b]),
            0..=0x1f if cx.chance(3, 4) => doc.extend_from_slice(format!("\\u{:04x}", b).as_bytes()),
            b'0'..=b'9' if cx.chance(1, 12) => doc.extend_from_slice(format!("\\u{:04x}", b).as_bytes()),
            b => doc.push(b),
        }
    }
    doc.push(b'"');
    if cx.chance(1, 6) {
        damage(cx, &mut doc);
    }
    let rec = Rec { kinds: vec![k], shape: Shape::Single };
    let route = *cx.pick(Route::of(Format::Json));
    let plan = if route.reader() { Plan::benign(cx) } else { Plan::smooth() };
    let stats = Stats::new();
    let got = check(route, &doc, &plan, &[rec], &stats)?;
    stats.book(cx);
    cx.op();
    cx.event(format!("{route:?} {:?}: {:?} {:?}", Bytes(&doc), got[0].1, got[0].0.fields));
    Ok(())
}

pub fn run(cx: &Cx, builds: &[Build]) -> Res {
    // A file of amounts, one per line.
    let mut disk = Disk::default();
    let lines = 1 + cx.usize(5);
    let mut codes = vec![];
    for _ in 0..lines {
        let b = &builds[cx.usize(builds.len())];
        let code = *cx.pick(&b.types);
        let ty = Ty::new(code / 64, code % 64);
        let s = if cx.chance(1, 3) { gen::text(cx, ty) } else { ty.display(gen::raw(cx, ty)) };
        disk.append("amounts", s.as_bytes());
        disk.append("amounts", b"\n");
        codes.push(code);
        if cx.chance(1, 2) {
            disk.sync("amounts");
        }
    }
    if cx.chance(1, 2) {
        cx.fault("crash");
        disk.crash(cx);
    }
    let data = disk.read("amounts");
    for (line, code) in data.split(|b| *b == b'\n').zip(codes) {
        cx.event(format!("line {:?}", Bytes(line)));
        for _ in 0..1 + cx.usize(4) {
            let mut bytes = line.to_vec();
            rot(cx, &mut bytes);
            cx.event(format!("rot: {:?}", Bytes(&bytes)));
            match std::str::from_utf8(&bytes) {
                Ok(s) => judge_text(cx, builds, code, s)?,
                Err(_) => {
                    cx.probe("no-longer-utf8");
                    judge_text(cx, builds, code, &String::from_utf8_lossy(&bytes))?;
                }
            }
            judge_document(cx, &bytes)?;
        }
    }
    cx.lock().time_us += 1000;
    Ok(())
}
