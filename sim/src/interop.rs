//! C13: peers on different builds exchange, store and re-read amounts in every wire form.
use crate::codec::Bytes;
use crate::core::*;
use crate::delivery::{float_of, int_of, text_of};
use crate::docs::ty_of;
use crate::env::{damage, Disk};
use crate::gen;
use crate::ledger::WIRE_TYPES;
use crate::nodes::Build;
use fxmodel::codes::*;
use fxsurface::wire::*;

struct Stored {
    form: i64,
    bytes: Vec<u8>,
    /// What the build that received it answered.
    verdict: Out,
}
struct Peer {
    build: usize,
    alive: bool,
    disk: Disk,
    /// Offsets of the frames in the peer's file.
    stored: Vec<Stored>,
    got: Vec<bool>,
}

fn show(o: &Out) -> String {
    match o.status {
        OK => format!("ok {} used {} {:?}", o.v, o.w, Bytes(&o.bytes)),
        s => format!("status {s}"),
    }
}

/// The verdict of every build on the same bytes; `Err` where two differ or one panics.
fn all_agree(builds: &[Build], pool: &[usize], code: u32, form: i64, bytes: &[u8]) -> Res<Out> {
    let mut first: Option<(usize, Out)> = None;
    for &b in pool {
        let o = builds[b].call(DECODE, code, form, 0, 0, bytes);
        let what = || format!("{} {} {:?}", ty_of(code).name(), form_name(form), Bytes(bytes));
        if o.status == PANIC {
            return viol("panic", format!("build {} panics decoding {}", builds[b].name, what()));
        }
        match &first {
            None => first = Some((b, o)),
            Some((b0, o0)) if *o0 != o => {
                return viol("verdicts-differ", format!("{}: build {} says {}, build {} says {}", what(), builds[*b0].name, show(o0), builds[b].name, show(&o)))
            }
            _ => {}
        }
    }
    Ok(first.unwrap().1)
}

/// What is known of the verdict without any build.
fn denotes(code: u32, form: i64, bytes: &[u8], o: &Out) -> Res {
    let ty = ty_of(code);
    let n = ty.bits as usize / 8;
    let want: Option<(u32, i128, i64)> = match form {
        SCALE => Some(match bytes.get(..n) {
            Some(b) => {
                let mut x = [if b[n - 1] & 0x80 != 0 { 0xff } else { 0u8 }; 16];
                x[..n].copy_from_slice(b);
                (OK, i128::from_le_bytes(x), n as i64)
            }
            None => (CONVERT, 0, 0),
        }),
        TEXT => Some(match std::str::from_utf8(bytes).ok().and_then(|s| ty.parse(s, false).ok()) {
            Some(v) => (OK, v, 0),
            None => (CONVERT, 0, 0),
        }),
        BIN => Some(match bytes.get(..n) {
            Some(b) => {
                let mut x = [if b[n - 1] & 0x80 != 0 { 0xff } else { 0u8 }; 16];
                x[..n].copy_from_slice(b);
                (OK, i128::from_le_bytes(x), n as i64)
            }
            None => (CONVERT, 0, 0),
        }),
        _ => None,
    };
    match want {
        Some((s, v, w)) if s != o.status || s == OK && (v != o.v || w != o.w) => {
            viol("misread", format!("{} {} {:?}: every build says {}, required {}", ty.name(), form_name(form), Bytes(bytes), show(o), if s == OK { format!("ok {v}") } else { "an error".into() }))
        }
        _ => Ok(()),
    }
}
/// The bytes the form must have, where they are documented independently.
fn canonical(code: u32, form: i64, v: i128, some: bool) -> Option<Vec<u8>> {
    let ty = ty_of(code);
    let n = ty.bits as usize / 8;
    let le = || v.to_le_bytes()[..n].to_vec();
    let mask = if ty.bits == 128 { u128::MAX } else { (1u128 << ty.bits) - 1 };
    let quoted = || format!("\"{}\"", ty.display(v)).into_bytes();
    let opt = |b: Vec<u8>| if some { [&[1u8][..], &b].concat() } else { vec![0] };
    let with_len = |s: String| [&(s.len() as u64).to_le_bytes()[..], s.as_bytes()].concat();
    Some(match form {
        SCALE | BIN => le(),
        SCALE_COMPACT => fxmodel::compact(v as u128 & mask),
        SCALE_OPTION | BIN_REPR_OPTION => opt(le()),
        TEXT => ty.display(v).into_bytes(),
        JSON | JSON_STR | JSON_VALUE => quoted(),
        JSON_REPR => v.to_string().into_bytes(),
        JSON_REPR_OPTION if some => v.to_string().into_bytes(),
        JSON_STR_OPTION if some => quoted(),
        JSON_REPR_OPTION | JSON_STR_OPTION | JSON_FLOAT_OPTION if !some => b"null".to_vec(),
        BIN_STR => with_len(ty.display(v)),
        BIN_STR_OPTION => opt(with_len(ty.display(v))),
        BIN_FLOAT_OPTION if !some => vec![0],
        _ => return None,
    })
}
fn optional(form: i64) -> bool {
    matches!(form, SCALE_OPTION | JSON_REPR_OPTION | JSON_STR_OPTION | JSON_FLOAT_OPTION | BIN_REPR_OPTION | BIN_STR_OPTION | BIN_FLOAT_OPTION)
}
fn float(form: i64) -> bool {
    matches!(form, JSON_FLOAT | JSON_FLOAT_OPTION | BIN_FLOAT | BIN_FLOAT_OPTION)
}

/// What a peer with other software might send: the form, any token.
fn foreign(cx: &Cx, ty: fxmodel::Ty, form: i64) -> Vec<u8> {
    let n = ty.bits as usize / 8;
    let json = |t: String| if cx.chance(1, 6) { format!(" {t}\n") } else { t };
    let quoted = |t: String| serde_json::Value::from(t).to_string();
    let with_len = |s: String| [&(s.len() as u64).to_le_bytes()[..], s.as_bytes()].concat();
    let some = |b: Vec<u8>| [&[*cx.pick(&[1u8, 1, 1, 0, 2, 255])][..], &b].concat();
    match form {
        JSON | JSON_VALUE | JSON_REPR | JSON_STR | JSON_FLOAT | JSON_REPR_OPTION | JSON_STR_OPTION | JSON_FLOAT_OPTION => {
            let raw = matches!(form, JSON_REPR | JSON_REPR_OPTION);
            json(match cx.below(8) {
                0..=2 => int_of(cx, ty, raw).to_string(),
                3 => format!("{:?}", float_of(cx, ty)),
                4 => (cx.u128() >> cx.below(120)).to_string(),
                5 => cx.pick(&["null", "true", "[]", "[1]", "\"\"", "-0", "0.0", "1e2", "1E-3", "-0.0"]).to_string(),
                _ => quoted(text_of(cx, ty)),
            })
            .into_bytes()
        }
        TEXT => text_of(cx, ty).into_bytes(),
        BIN_STR => with_len(text_of(cx, ty)),
        BIN_STR_OPTION => some(with_len(text_of(cx, ty))),
        BIN_FLOAT => float_of(cx, ty).to_le_bytes().to_vec(),
        BIN_FLOAT_OPTION => some(gen::float(cx, ty).to_le_bytes().to_vec()),
        SCALE_COMPACT => fxmodel::compact(cx.u128() >> cx.below(128)),
        SCALE_OPTION | BIN_REPR_OPTION => some(cx.u128().to_le_bytes()[..n].to_vec()),
        _ => cx.u128().to_le_bytes()[..cx.usize(17)].to_vec(),
    }
}

pub fn run(cx: &Cx, builds: &[Build]) -> Res {
    let (bits, prec) = *cx.pick(&WIRE_TYPES);
    let code = bits * 64 + prec;
    let ty = ty_of(code);
    let pool: Vec<usize> = (0..builds.len()).filter(|&b| builds[b].types.contains(&code)).collect();
    let n = 2 + cx.usize(3);
    let faulty = cx.chance(5, 6);
    let mut peers: Vec<Peer> = (0..n)
        .map(|i| {
            let build = *cx.pick(&pool);
            cx.event(format!("peer {i}: build {}", builds[build].name));
            Peer { build, alive: true, disk: Disk::default(), stored: vec![], got: vec![] }
        })
        .collect();
    let mut sent: Vec<(i64, Option<i128>, Vec<u8>)> = vec![];
    let mut t = 0u64;
    for _ in 0..3 + cx.usize(10) {
        t += 100 + cx.below(10_000);
        match cx.below(8) {
            0 if faulty => {
                let i = cx.usize(n);
                peers[i].alive = false;
                peers[i].disk.crash(cx);
                cx.fault("crash");
                cx.event(format!("t={t} peer {i} crashes"));
            }
            1 | 2 => {
                let i = cx.usize(n);
                reopen(cx, builds, &pool, code, &mut peers[i], i, t)?;
            }
            _ => {
                let i = cx.usize(n);
                if !peers[i].alive {
                    reopen(cx, builds, &pool, code, &mut peers[i], i, t)?;
                }
                let form = cx.below(FORMS as u64) as i64;
                let v = gen::raw(cx, ty);
                let some = !optional(form) || cx.chance(4, 5);
                let (a, b) = (v, some as i128);
                let o = builds[peers[i].build].call(ENCODE, code, form, a, b, b"");
                cx.op();
                let what = || format!("{} {v} (some: {some}) as {}", ty.name(), form_name(form));
                // identical on every build
                for &x in &pool {
                    let p = builds[x].call(ENCODE, code, form, a, b, b"");
                    if p != o || p.status == PANIC {
                        return viol("bytes-differ", format!("{}: build {} writes {}, build {} {}", what(), builds[peers[i].build].name, show(&o), builds[x].name, show(&p)));
                    }
                }
                match canonical(code, form, v, some) {
                    Some(c) if o.status != OK || o.bytes != c => {
                        // (an owned JSON tree and the like cannot fail here)
                        return viol("bytes", format!("{}: {}, documented {:?}", what(), show(&o), Bytes(&c)));
                    }
                    _ => {}
                }
                if o.status != OK {
                    return viol("refused", format!("{}: {}", what(), show(&o)));
                }
                cx.event(format!("t={t} peer {i} sends #{} {}: {:?}", sent.len(), what(), Bytes(&o.bytes)));
                let no = sent.len();
                sent.push((form, some.then_some(v), o.bytes.clone()));
                for (j, peer) in peers.iter_mut().enumerate() {
                    peer.got.resize(no + 1, false);
                    if j == i || !peer.alive {
                        peer.got[no] |= j == i;
                        continue;
                    }
                    let copies = if !faulty {
                        1
                    } else {
                        match cx.below(8) {
                            0 => {
                                cx.fault("message-loss");
                                0
                            }
                            1 => {
                                cx.fault("message-duplicate");
                                2
                            }
                            _ => 1,
                        }
                    };
                    for _ in 0..copies {
                        let mut bytes = o.bytes.clone();
                        let mut whole = true;
                        if faulty && cx.chance(2, 5) {
                            match cx.below(5) {
                                0 => {
                                    bytes.truncate(cx.usize(bytes.len() + 1));
                                    cx.fault("truncated");
                                }
                                4 => {
                                    bytes = foreign(cx, ty, form);
                                    cx.fault("foreign-message");
                                }
                                1 => {
                                    let again = bytes.clone();
                                    bytes.extend(again);
                                    cx.fault("content-doubled");
                                }
                                _ => {
                                    damage(cx, &mut bytes);
                                }
                            }
                            whole = bytes == o.bytes;
                        }
                        receive(cx, builds, &pool, code, form, &bytes, peer, j, t)?;
                        if whole {
                            let s = peer.stored.last().unwrap();
                            arrived(cx, code, form, some.then_some(v), &s.verdict, builds[peer.build].name)?;
                            peer.got[no] = true;
                        }
                    }
                }
            }
        }
    }
    // Faults stop: retransmit whatever a peer has not got; everybody ends with the same amounts.
    for (j, p) in peers.iter_mut().enumerate() {
        reopen(cx, builds, &pool, code, p, j, t)?;
        for (no, (form, v, bytes)) in sent.iter().enumerate() {
            if !p.got.get(no).copied().unwrap_or(false) {
                receive(cx, builds, &pool, code, *form, bytes, p, j, t)?;
                arrived(cx, code, *form, *v, &p.stored.last().unwrap().verdict, builds[p.build].name)?;
            }
        }
        reopen(cx, builds, &pool, code, p, j, t)?;
    }
    cx.lock().time_us += t;
    Ok(())
}

fn receive(cx: &Cx, builds: &[Build], pool: &[usize], code: u32, form: i64, bytes: &[u8], p: &mut Peer, j: usize, t: u64) -> Res {
    let all = all_agree(builds, pool, code, form, bytes)?;
    denotes(code, form, bytes, &all)?;
    let o = builds[p.build].call(DECODE, code, form, 0, 0, bytes);
    if o != all {
        return viol("history", format!("build {} decodes {} {:?} as {} and then as {}", builds[p.build].name, form_name(form), Bytes(bytes), show(&all), show(&o)));
    }
    cx.op();
    cx.switch();
    cx.event(format!("t={t} peer {j} receives {:?}: {}", Bytes(bytes), show(&o)));
    p.disk.append("frames", &(bytes.len() as u32).to_le_bytes());
    p.disk.append("frames", bytes);
    if cx.chance(1, 2) {
        p.disk.sync("frames");
    }
    p.stored.push(Stored { form, bytes: bytes.to_vec(), verdict: o });
    Ok(())
}

fn arrived(cx: &Cx, code: u32, form: i64, v: Option<i128>, o: &Out, build: &str) -> Res {
    let ty = ty_of(code);
    let ok = match v {
        None => o.status == OK && o.bytes == [0],
        Some(v) if !float(form) => o.status == OK && o.bytes == [1] && o.v == v,
        // (through a float: as accurate as that is, or out of reach at the very edge)
        Some(v) => {
            let m = fxmodel::Z::new(v).abs();
            let tol = fxmodel::Z::new(2).add(m.div_rem(fxmodel::Z::new(400_000_000_000_000)).0);
            if o.status == OK {
                o.bytes == [1] && fxmodel::Z::new(o.v).sub(fxmodel::Z::new(v)).abs() <= tol
            } else {
                m.add(tol) >= fxmodel::Z::new(ty.max())
            }
        }
    };
    if !ok {
        return viol("changed", format!("{} {v:?} sent as {} arrives on build {build} as {}", ty.name(), form_name(form), show(o)));
    }
    cx.probe("arrived-intact");
    Ok(())
}

/// Restart, possibly on another build; everything that survived reads as it did before.
fn reopen(cx: &Cx, builds: &[Build], pool: &[usize], code: u32, p: &mut Peer, j: usize, t: u64) -> Res {
    let old = p.build;
    p.build = *cx.pick(pool);
    if p.build != old {
        cx.fault("rolling-upgrade");
    }
    p.alive = true;
    let data = p.disk.read("frames");
    let (mut at, mut n) = (0, 0);
    while n < p.stored.len() {
        let s = &p.stored[n];
        let end = at + 4 + s.bytes.len();
        if data.len() < end || data[at..at + 4] != (s.bytes.len() as u32).to_le_bytes() || data[at + 4..end] != s.bytes[..] {
            break;
        }
        let o = builds[p.build].call(DECODE, code, s.form, 0, 0, &data[at + 4..end]);
        cx.op();
        if o != s.verdict {
            return viol("upgrade", format!("stored {} {:?} was {} on build {}, is {} on build {}", form_name(s.form), Bytes(&s.bytes), show(&s.verdict), builds[old].name, show(&o), builds[p.build].name));
        }
        at = end;
        n += 1;
    }
    if n < p.stored.len() {
        cx.probe("frames-lost-in-crash");
    }
    // a torn frame: all builds agree on it, too
    if data.len() > at + 4 && n < p.stored.len() {
        let form = p.stored[n].form;
        let o = all_agree(builds, pool, code, form, &data[at + 4..])?;
        denotes(code, form, &data[at + 4..], &o)?;
        cx.probe("torn-frame");
    }
    p.disk.truncate("frames", at);
    p.stored.truncate(n);
    cx.event(format!("t={t} peer {j} reopens on build {}: {n} frames", builds[p.build].name));
    Ok(())
}
