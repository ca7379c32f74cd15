//! C01, C02: a replicated ledger whose replicas run different builds.
use crate::core::*;
use crate::env::Disk;
use crate::gen;
use crate::nodes::Build;
use fxmodel::codes::*;
use fxmodel::{accepts, expect, Expect, Ty};
use std::cmp::Reverse;
use std::collections::{BinaryHeap, BTreeSet};

#[derive(Clone, Debug)]
enum Opnd {
    Acc(usize),
    Tmp(usize),
    Lit(i128),
}
#[derive(Clone, Debug)]
struct Step {
    op: u32,
    k: i64,
    a: Opnd,
    b: Opnd,
    text: Vec<u8>,
}
#[derive(Clone, Debug)]
struct Cmd {
    steps: Vec<Step>,
    /// account := result of step
    writes: Vec<(usize, usize)>,
}
/// A command with what every replica must observe.
struct Entry {
    cmd: Cmd,
    outs: Vec<Out>,
    aborted: bool,
    after: Vec<i128>,
}

/// Results that are amounts (may be written to an account).
fn amount(op: u32) -> bool {
    !matches!(op, INTEGRAL | TO_DECIMAL | TO_F64 | CMP | SIGNUM | CONSTS | DISPLAY | DEBUG | INT_RDIV_INT)
}

struct Msg {
    to: usize, // usize::MAX: the sequencer
    from: usize,
    body: Body,
}
#[derive(Clone)]
enum Body {
    Append { seq: usize },
    Ack { applied: usize },
}
enum Ev {
    Deliver(Msg),
    Tick,
    Restart(usize),
    Heal,
    Fault,
}

struct Replica {
    build: usize,
    alive: bool,
    disk: Disk,
    accounts: Vec<i128>,
    applied: usize,
    epoch: u64,
}

struct Sim<'a> {
    cx: &'a Cx,
    builds: &'a [Build],
    prop: u32,
    ty: Ty,
    code: u32,
    log: Vec<Entry>,
    start: Vec<i128>,
    reps: Vec<Replica>,
    acked: Vec<usize>,
    cut: BTreeSet<usize>,
    now: u64,
    n: u64,
    q: BinaryHeap<Reverse<(u64, u64)>>,
    evs: std::collections::BTreeMap<u64, Ev>,
    usable: Vec<usize>,
    // swarm knobs
    drop: u64,
    dup: u64,
    jitter: u64,
    crash_step: u64,
    sync_every: u64,
    snap_every: u64,
    faults_on: bool,
    form: i64,
}

const SEQ: usize = usize::MAX;

fn crc(b: &[u8]) -> u32 {
    b.iter().fold(0x811c9dc5u32, |h, x| (h ^ *x as u32).wrapping_mul(0x01000193))
}

impl<'a> Sim<'a> {
    fn at(&mut self, dt: u64, e: Ev) {
        self.n += 1;
        self.q.push(Reverse((self.now + dt, self.n)));
        self.evs.insert(self.n, e);
    }
    fn send(&mut self, from: usize, to: usize, body: Body) {
        let link = if to == SEQ { from } else { to };
        if self.faults_on && self.cut.contains(&link) {
            self.cx.fault("partition-drop");
            return;
        }
        if self.faults_on && self.drop > 0 && self.cx.chance(self.drop, 1000) {
            self.cx.fault("message-loss");
            return;
        }
        let mut d = 100;
        if self.faults_on && self.jitter > 0 {
            let j = self.cx.below(self.jitter);
            if j > self.jitter / 2 {
                self.cx.fault("message-delay");
            }
            d += j;
        }
        self.at(d, Ev::Deliver(Msg { to, from, body: body.clone() }));
        if self.faults_on && self.dup > 0 && self.cx.chance(self.dup, 1000) {
            self.cx.fault("message-duplicate");
            let d2 = d + self.cx.below(self.jitter + 1000);
            self.at(d2, Ev::Deliver(Msg { to, from, body }));
        }
    }

    fn step_inputs(&self, s: &Step, accounts: &[i128], tmps: &[i128]) -> (i128, i128) {
        let get = |o: &Opnd| match o {
            Opnd::Acc(i) => accounts[*i],
            Opnd::Tmp(i) => tmps[*i],
            Opnd::Lit(v) => *v,
        };
        (get(&s.a), get(&s.b))
    }

    /// Generate one command and the outcome every replica must reach.
    fn propose(&mut self) -> Res {
        let (cx, ty) = (self.cx, self.ty);
        let before = self.log.last().map_or(&self.start, |e| &e.after).clone();
        let nsteps = 1 + cx.usize(if self.prop == 2 { 5 } else { 4 });
        let mut steps: Vec<Step> = vec![];
        let mut outs: Vec<Out> = vec![];
        let mut tmps: Vec<i128> = vec![];
        let mut aborted = false;
        for i in 0..nsteps {
            let op = if self.prop == 2 && cx.chance(3, 4) {
                *cx.pick(&gen::FALLIBLE)
            } else {
                gen::op(cx, ty)
            };
            let mut operand = |lit: i128| -> (Opnd, i128) {
                match cx.below(4) {
                    0 if !before.is_empty() => {
                        let j = cx.usize(before.len());
                        (Opnd::Acc(j), before[j])
                    }
                    1 if i > 0 => {
                        let j = cx.usize(i);
                        if amount(steps[j].op) {
                            (Opnd::Tmp(j), tmps[j])
                        } else {
                            (Opnd::Lit(lit), lit)
                        }
                    }
                    _ => (Opnd::Lit(lit), lit),
                }
            };
            let (mut a, mut av) = operand(gen::raw(cx, ty));
            let (mut b, mut bv) = operand(gen::raw(cx, ty));
            let sh = gen::shape(cx, ty, op, av, bv);
            let (k, text) = (sh.k, sh.text);
            if let Some(v) = sh.a {
                (a, av) = (Opnd::Lit(v), v);
            }
            if let Some(v) = sh.b {
                (b, bv) = (Opnd::Lit(v), v);
            }
            let mut op = op;
            let mut want = expect(ty, op, k, av, bv, &text);
            if matches!(want, Expect::Undefined) {
                op = INTEGRAL; // floor/ceil/round outside their domain
                want = expect(ty, op, k, av, bv, &text);
            }
            let _ = (&a, &b);
            // Where the law leaves freedom, one build answers for all.
            let out = match &want {
                Expect::Is(o) => o.clone(),
                w => {
                    let bld = &self.builds[self.usable[0]];
                    let o = bld.call(op, self.code, k, av, bv, &text);
                    if !accepts(ty, w, &o) {
                        return viol(
                            "wrong-answer",
                            format!("build {}: {} {} k={k} a={av} b={bv}: answered {:?}, law {:?}", bld.name, ty.name(), op_name(op), o, w),
                        );
                    }
                    o
                }
            };
            steps.push(Step { op, k, a, b, text });
            let failed = out.status != OK;
            tmps.push(out.v);
            outs.push(out);
            if failed {
                aborted = true;
                break;
            }
        }
        let mut after = before.clone();
        let mut writes = vec![];
        if !before.is_empty() {
            for (i, s) in steps.iter().enumerate() {
                if amount(s.op) && cx.chance(1, 2) {
                    let acc = cx.usize(before.len());
                    writes.push((acc, i));
                }
            }
        }
        if !aborted {
            for (acc, i) in &writes {
                after[*acc] = outs[*i].v;
            }
        } else {
            cx.probe("transaction-aborted");
        }
        let seq = self.log.len();
        cx.event(format!("t={} propose #{seq} {}", self.now, show(&steps, &writes, aborted)));
        self.log.push(Entry { cmd: Cmd { steps, writes }, outs, aborted, after });
        Ok(())
    }

    /// Apply command `seq` on replica `r`; false: the replica crashed in the middle.
    fn apply(&mut self, r: usize, seq: usize) -> Res<bool> {
        let e = &self.log[seq];
        let bld = &self.builds[self.reps[r].build];
        let accounts = self.reps[r].accounts.clone();
        let mut tmps: Vec<i128> = vec![];
        let mut failed = false;
        for (i, s) in e.cmd.steps.iter().enumerate() {
            if self.faults_on && self.crash_step > 0 && self.cx.chance(self.crash_step, 1000) {
                self.cx.fault("crash-mid-transaction");
                return Ok(false);
            }
            let (a, b) = self.step_inputs(s, &accounts, &tmps);
            let o = bld.call(s.op, self.code, s.k, a, b, &s.text);
            self.cx.op();
            if o != e.outs[i] {
                let class = if o.status == PANIC { "panic" } else { "diverged" };
                return viol(
                    class,
                    format!(
                        "replica {r} (build {}) at #{seq} step {i}: {} {} k={} a={a} b={b} text={:?}: got {}, required {}",
                        bld.name,
                        self.ty.name(),
                        op_name(s.op),
                        s.k,
                        String::from_utf8_lossy(&s.text),
                        show_out(&o),
                        show_out(&e.outs[i]),
                    ),
                );
            }
            tmps.push(o.v);
            if o.status != OK {
                failed = true;
                break;
            }
        }
        if !failed {
            for (acc, i) in &e.cmd.writes {
                self.reps[r].accounts[*acc] = tmps[*i];
            }
        }
        self.reps[r].applied = seq + 1;
        if self.reps[r].accounts != self.log[seq].after {
            return viol("state", format!("replica {r} after #{seq}: {:?} != {:?}", self.reps[r].accounts, self.log[seq].after));
        }
        Ok(true)
    }

    fn crash(&mut self, r: usize) {
        let rep = &mut self.reps[r];
        rep.alive = false;
        rep.epoch += 1;
        rep.disk.crash(self.cx);
        rep.accounts.clear();
        rep.applied = 0;
        self.cx.event(format!("t={} crash r{r} journal={}B", self.now, self.reps[r].disk.len("journal")));
        let d = 1000 + self.cx.below(50_000);
        self.at(d, Ev::Restart(r));
    }

    fn snapshot(&mut self, r: usize) -> Res {
        let (ty, code) = (self.ty, self.code);
        let bld = &self.builds[self.reps[r].build];
        let mut bytes = (self.reps[r].applied as u32).to_le_bytes().to_vec();
        bytes.push(self.form as u8);
        for v in &self.reps[r].accounts {
            let o = if self.form == fxsurface::wire::TEXT {
                bld.call(DISPLAY, code, 0, *v, 0, b"")
            } else {
                bld.call(ENCODE, code, self.form, *v, 1, b"")
            };
            if o.status != OK {
                return viol("snapshot", format!("build {} {} cannot encode {v} as {}: {}", bld.name, ty.name(), fxsurface::wire::form_name(self.form), show_out(&o)));
            }
            bytes.push(o.bytes.len() as u8);
            bytes.extend_from_slice(&o.bytes);
        }
        let rep = &mut self.reps[r];
        rep.disk.replace("snapshot", &bytes);
        rep.disk.truncate("journal", 0);
        self.cx.probe("snapshot");
        Ok(())
    }

    /// Rebuild from snapshot and journal, possibly on another build.
    fn restart(&mut self, r: usize) -> Res {
        if self.usable.len() > 1 && self.cx.chance(1, 2) {
            let b = *self.cx.pick(&self.usable);
            if b != self.reps[r].build {
                self.cx.fault("rolling-upgrade");
                self.reps[r].build = b;
            }
        }
        let code = self.code;
        let bld = &self.builds[self.reps[r].build];
        self.cx.event(format!("t={} restart r{r} build {}", self.now, bld.name));
        self.cx.fault("restart");
        let snap = self.reps[r].disk.read("snapshot");
        let (applied, accounts) = if snap.is_empty() {
            (0, self.start.clone())
        } else {
            let applied = u32::from_le_bytes(snap[..4].try_into().unwrap()) as usize;
            let form = snap[4] as i64;
            let mut p = 5;
            let mut acc = vec![];
            while p < snap.len() {
                let n = snap[p] as usize;
                let t = &snap[p + 1..p + 1 + n];
                p += 1 + n;
                let o = if form == fxsurface::wire::TEXT {
                    bld.call(PARSE, code, 0, 0, 0, t)
                } else {
                    bld.call(DECODE, code, form, 0, 0, t)
                };
                if o.status != OK {
                    return viol("snapshot", format!("build {} {} cannot decode {:?} ({}): {}", bld.name, self.ty.name(), String::from_utf8_lossy(t), fxsurface::wire::form_name(form), show_out(&o)));
                }
                acc.push(o.v);
            }
            (applied, acc)
        };
        let at = if applied == 0 { &self.start } else { &self.log[applied - 1].after };
        if &accounts != at {
            return viol("recovery", format!("replica {r} (build {}) recovered {:?} from its snapshot, stored {:?}", bld.name, accounts, at));
        }
        self.reps[r].accounts = accounts;
        self.reps[r].applied = applied;
        // journal: [seq u32][crc u32]*
        let j = self.reps[r].disk.read("journal");
        let mut good = 0;
        for rec in j.chunks(8) {
            if rec.len() < 8 || crc(&rec[..4]) != u32::from_le_bytes(rec[4..].try_into().unwrap()) {
                self.cx.probe("torn-journal-record-discarded");
                break;
            }
            let seq = u32::from_le_bytes(rec[..4].try_into().unwrap()) as usize;
            good += 8;
            if seq < applied {
                continue;
            }
            let on = self.faults_on;
            self.faults_on = false; // a crash during recovery is the next crash event
            let ok = self.apply(r, seq);
            self.faults_on = on;
            if !ok? {
                unreachable!()
            }
            self.cx.probe("re-executed-from-journal");
        }
        self.reps[r].disk.truncate("journal", good);
        self.reps[r].alive = true;
        Ok(())
    }

    fn deliver(&mut self, m: Msg) -> Res {
        if m.to == SEQ {
            if let Body::Ack { applied } = m.body {
                self.acked[m.from] = self.acked[m.from].max(applied);
            }
            return Ok(());
        }
        let r = m.to;
        if !self.reps[r].alive {
            self.cx.probe("message-to-dead-replica");
            return Ok(());
        }
        if let Body::Append { seq } = m.body {
            if seq == self.reps[r].applied {
                // write-ahead, then execute
                let mut rec = (seq as u32).to_le_bytes().to_vec();
                rec.extend_from_slice(&crc(&rec).to_le_bytes());
                self.reps[r].disk.append("journal", &rec);
                self.cx.event(format!("t={} r{r} applies #{seq}", self.now));
                self.cx.switch();
                if !self.apply(r, seq)? {
                    self.crash(r);
                    return Ok(());
                }
                if (seq as u64 + 1) % self.sync_every == 0 {
                    self.reps[r].disk.sync("journal");
                }
                if (seq as u64 + 1) % self.snap_every == 0 {
                    self.snapshot(r)?;
                }
            } else if seq > self.reps[r].applied {
                self.cx.probe("gap-message-ignored");
            } else {
                self.cx.probe("duplicate-or-old-ignored");
            }
            let applied = self.reps[r].applied;
            self.send(r, SEQ, Body::Ack { applied });
        }
        Ok(())
    }

    fn tick(&mut self) {
        for r in 0..self.reps.len() {
            let from = self.acked[r].min(self.log.len());
            // a restarted replica may be behind what it once acknowledged (lost journal tail)
            let from = if self.cx.chance(1, 8) || !self.faults_on { self.reps[r].applied.min(from) } else { from };
            for seq in from..(from + 6).min(self.log.len()) {
                self.send(SEQ, r, Body::Append { seq });
            }
        }
        let skew = if self.faults_on && self.cx.chance(1, 5) {
            self.cx.fault("clock-jump");
            self.cx.below(20_000)
        } else {
            0
        };
        self.at(5_000 + skew, Ev::Tick);
    }
}

fn show_out(o: &Out) -> String {
    match o.status {
        OK if !o.bytes.is_empty() => format!("Ok({:?})", String::from_utf8_lossy(&o.bytes)),
        OK if o.w != 0 => format!("Ok({}, {})", o.v, o.w),
        OK => format!("Ok({})", o.v),
        OVERFLOW => "Overflow".into(),
        DIV_ZERO => "DivisionByZero".into(),
        DOMAIN => "DomainViolation".into(),
        CONVERT => "ConvertError".into(),
        PANIC => "PANIC".into(),
        s => format!("status {s}"),
    }
}
fn show(steps: &[Step], writes: &[(usize, usize)], aborted: bool) -> String {
    let mut s = String::new();
    for (i, t) in steps.iter().enumerate() {
        s += &format!("t{i}={}({:?},{:?},k={}", op_name(t.op), t.a, t.b, t.k);
        if !t.text.is_empty() {
            s += &format!(",{:?}", String::from_utf8_lossy(&t.text));
        }
        s += ") ";
    }
    for (a, i) in writes {
        s += &format!("acc{a}:=t{i} ");
    }
    if aborted {
        s += "(aborts)";
    }
    s
}

pub fn run(cx: &Cx, builds: &[Build], prop: u32) -> Res {
    // Deployment: a set of builds, a type they all have.
    let n = 2 + cx.usize(3);
    let mut pool: Vec<usize> = (0..builds.len()).filter(|_| cx.chance(1, 2)).collect();
    let width = *cx.pick(&[64u32, 128, 64, 32, 16, 128]);
    pool.retain(|&b| builds[b].types.iter().any(|t| t / 64 == width));
    if pool.is_empty() {
        pool = (0..builds.len()).filter(|&b| builds[b].types.iter().any(|t| t / 64 == width)).collect();
    }
    let of_width: Vec<u32> = builds[pool[0]].types.iter().copied().filter(|t| t / 64 == width).collect();
    let code = if width == 64 && cx.chance(1, 4) { 64 * 64 + 9 } else { *cx.pick(&of_width) };
    let ty = Ty::new(code / 64, code % 64);
    let wire = fxsurface_types(builds, &pool, code);
    let form = if wire { *cx.pick(&SNAP_FORMS) } else { fxsurface::wire::TEXT };
    let faulty = cx.chance(4, 5);
    let knob = |cx: &Cx, hi: u64| if faulty && cx.chance(2, 3) { cx.below(hi) } else { 0 };
    let mut s = Sim {
        cx,
        builds,
        prop,
        ty,
        code,
        log: vec![],
        start: vec![],
        reps: vec![],
        acked: vec![0; n],
        cut: BTreeSet::new(),
        now: 0,
        n: 0,
        q: BinaryHeap::new(),
        evs: Default::default(),
        usable: pool.clone(),
        drop: knob(cx, 250),
        dup: knob(cx, 250),
        jitter: knob(cx, 8_000),
        crash_step: knob(cx, if prop == 2 { 60 } else { 25 }),
        sync_every: 1 + cx.below(6),
        snap_every: 2 + cx.below(12),
        faults_on: faulty,
        form,
    };
    s.start = (0..1 + cx.usize(4)).map(|_| gen::raw(cx, ty)).collect();
    for r in 0..n {
        let b = *cx.pick(&pool);
        s.reps.push(Replica { build: b, alive: true, disk: Disk::default(), accounts: s.start.clone(), applied: 0, epoch: 0 });
        cx.event(format!("replica {r}: build {}", builds[b].name));
    }
    cx.event(format!("ledger {} accounts {:?} faults={faulty}", ty.name(), s.start));
    let total = 4 + cx.usize(28);
    s.at(0, Ev::Tick);
    if faulty {
        let d = cx.below(20_000);
        s.at(d, Ev::Fault);
    }
    let mut next_cmd = 0u64;
    let faults_end = 60_000 + cx.below(200_000);
    let mut deadline = u64::MAX;
    loop {
        while s.log.len() < total && next_cmd <= s.now {
            s.propose()?;
            next_cmd += cx.below(6_000);
        }
        if deadline == u64::MAX && s.log.len() == total && (s.now >= faults_end || !faulty) {
            // Faults stop: everything heals; progress is now due.
            s.faults_on = false;
            s.cut.clear();
            deadline = s.now + 2_000_000;
            cx.event(format!("t={} faults stop", s.now));
        }
        let Some(Reverse((t, id))) = s.q.pop() else { return viol("liveness", "nothing left to do") };
        s.now = t;
        if s.log.len() < total && next_cmd > s.now && s.q.is_empty() {
            next_cmd = s.now;
        }
        match s.evs.remove(&id).unwrap() {
            Ev::Deliver(m) => s.deliver(m)?,
            Ev::Tick => s.tick(),
            Ev::Restart(r) => {
                if !s.reps[r].alive {
                    s.restart(r)?
                }
            }
            Ev::Heal => s.cut.clear(),
            Ev::Fault => {
                if s.faults_on {
                    match cx.below(3) {
                        0 => {
                            let r = cx.usize(n);
                            if s.reps[r].alive {
                                cx.fault("crash");
                                s.crash(r);
                            }
                        }
                        1 => {
                            let r = cx.usize(n);
                            s.cut.insert(r);
                            cx.fault("partition");
                            cx.event(format!("t={} partition r{r}", s.now));
                            let d = cx.below(60_000);
                            s.at(d, Ev::Heal);
                        }
                        _ => {}
                    }
                    let d = 3_000 + cx.below(40_000);
                    s.at(d, Ev::Fault);
                }
            }
        }
        if deadline != u64::MAX {
            if (0..n).all(|r| s.reps[r].alive && s.reps[r].applied == total) {
                break;
            }
            if s.now > deadline {
                return viol("liveness", format!("replicas stuck at {:?} of {total}", s.reps.iter().map(|r| r.applied).collect::<Vec<_>>()));
            }
        }
    }
    // Converged: same state everywhere, also as rendered by each build.
    let fin = s.log.last().map_or(&s.start, |e| &e.after).clone();
    for (r, rep) in s.reps.iter().enumerate() {
        for v in &rep.accounts {
            let o = builds[rep.build].call(DISPLAY, code, 0, *v, 0, b"");
            if o.status != OK || o.bytes != ty.display(*v).into_bytes() {
                return viol("digest", format!("replica {r} (build {}) {} renders {v} as {}", builds[rep.build].name, ty.name(), show_out(&o)));
            }
        }
        if rep.accounts != fin {
            return viol("state", format!("replica {r} ends at {:?}, required {:?}", rep.accounts, fin));
        }
    }
    let aborted = s.log.iter().filter(|e| e.aborted).count();
    cx.event(format!("t={} converged: {} commands, {} aborted", s.now, total, aborted));
    cx.lock().time_us += s.now;
    Ok(())
}

const SNAP_FORMS: [i64; 10] = {
    use fxsurface::wire::*;
    [TEXT, SCALE, SCALE_COMPACT, SCALE_OPTION, JSON, JSON_REPR, JSON_STR, BIN, BIN_STR, BIN_REPR_OPTION]
};

fn fxsurface_types(_b: &[Build], _pool: &[usize], code: u32) -> bool {
    WIRE_TYPES.contains(&(code / 64, code % 64))
}
/// Types for which the nodes offer wire forms.
pub const WIRE_TYPES: [(u32, u32); 18] = [
    (16, 0), (16, 2), (16, 4), (32, 0), (32, 4), (32, 9), (64, 0), (64, 2), (64, 9), (64, 18), (128, 0), (128, 9),
    (128, 18), (128, 38), (32, 2), (64, 6), (128, 1), (128, 25),
];
