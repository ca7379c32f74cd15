"""Replicas on machines of other kinds (word size, byte order), interpreted by Miri. Used by run.py.

A simulated run's tape (every distinct call its replicas made, with the answer all of them gave) is
re-executed there; every answer must be the same."""
import glob, json, os, re, shutil, signal, subprocess, tempfile, threading, time

import run as R

DIR = R.HERE + "/foreign"
OUT = R.TARGET + "/foreign"
FLAGS = ("-Zmiri-disable-isolation -Zmiri-deterministic-floats -Zmiri-ignore-leaks -Zmiri-disable-validation "
         "-Zmiri-disable-stacked-borrows")
MACHINES = {
    "powerpc-unknown-linux-gnu": "32 bit, big-endian",
    "s390x-unknown-linux-gnu": "64 bit, big-endian",
    "i686-unknown-linux-gnu": "32 bit, little-endian",
}
QUICK = ["powerpc-unknown-linux-gnu"]
ENV = dict(R.ENV, CARGO_TARGET_DIR=OUT, MIRIFLAGS=FLAGS, RUSTFLAGS="-Awarnings", RUSTUP_TOOLCHAIN="nightly")


def start(machine, *args):
    return subprocess.Popen(["cargo", "miri", "run", "--offline", "--quiet", "--target", machine, "--", *map(str, args)],
                            cwd=DIR, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                            start_new_session=True)


def wait(p, timeout):
    """(exit code or None if it had to be stopped, output, errors)"""
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, err = p.communicate()
        return None, out, err
    return p.returncode, out, err


def prepare(machine):
    """None, or why there is no such machine here."""
    for p in glob.glob(OUT + "/miri/*/debug/.fingerprint/f*x*") + glob.glob(OUT + "/*/debug/.fingerprint/f*x*"):
        shutil.rmtree(p, ignore_errors=True)
    r = subprocess.run(["cargo", "miri", "setup", "--target", machine], cwd=DIR, env=ENV, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        return "no standard library for it: " + r.stdout[-300:]
    empty = tempfile.NamedTemporaryFile(prefix="fx-tape-")
    rc, out, err = wait(start(machine, empty.name, 0, 1, 1), 600)
    return None if rc == 0 and "CALLS 0" in out else "not built: " + (out + err)[-300:]


class Machines:
    """Prepared in the background while the other builds are compiled."""

    def __init__(self, tier):
        self.names = QUICK if tier == "quick" else list(MACHINES)
        self.why = {}
        self.t = threading.Thread(target=self.go)
        self.t.start()

    def go(self):
        for m in self.names:
            self.why[m] = prepare(m)


def records(data):
    out, i = [], 0
    while i < len(data):
        s = i
        i += 48
        i += 4 + int.from_bytes(data[i:i + 4], "little")
        i += 28
        i += 4 + int.from_bytes(data[i:i + 4], "little")
        out.append(data[s:i])
    return out


def judge(rc, out, err):
    """None or (index of the call, class, text)."""
    at = re.findall(r"^AT (\d+)$", out, re.M)
    m = re.search(r"^DIFF (\d+) (\w+)$", out, re.M)
    if m:
        f = lambda k: (re.search(rf"^{k} (.*)$", out, re.M) or [0, ""])[1]
        return int(m[1]), m[2], f"{f('CALL')}: there {f('GOT')}, here {f('WANT')}"
    if rc == 0 or not at:
        return None
    if rc is None:
        return int(at[-1]), "hang", "the call does not end"
    m = re.search(r"^error: (Undefined Behavior: .*|abnormal termination: .*)$", err, re.M)
    return (int(at[-1]), "abort", m[1]) if m else None


def run(check, machines):
    """Re-execute what the check's runs did; returns what was covered."""
    machines.t.join()
    quick = check.tier == "quick"
    cfg = "checked"
    tape = check.tmp + "/tape"
    calls, secs = (12000, 45) if quick else (400000, 400 // len(machines.names))
    r = check.exe(cfg, "tape", "--prop", check.prop, "--seed", str(check.seed_of(cfg)), "--count", str(calls // 6),
                  "--calls", str(calls), "--out", tape)
    if r.returncode:
        R.die("tape: " + r.stderr[-2000:])
    rec = records(open(tape, "rb").read())
    cov = {}
    for m in machines.names:
        if machines.why[m]:
            cov[m] = {"kind": MACHINES[m], "left_out": machines.why[m]}
            R.say(f"note: no {m}: {machines.why[m]}")
            continue
        t = time.time()
        ps = [start(m, tape, w, 8, secs) for w in range(8)]
        done = [wait(p, secs + 240) for p in ps]
        n = sum(int(x) for _, out, _ in done for x in re.findall(r"^CALLS (\d+)$", out, re.M))
        cov[m] = {"kind": MACHINES[m], "calls_reexecuted": n, "calls_on_tape": len(rec), "seconds": round(time.time() - t, 1)}
        bad = sorted(filter(None, (judge(*d) for d in done)))
        for i, cls, text in bad:
            j = {"property": check.prop, "foreign": m, "seed": check.seed, "call": i, "class": cls,
                 "violation": text, "record": rec[i].hex()}
            if again(j) is None:
                continue
            path = check.write_replay(j, f"{m.split('-')[0]}-{check.seed}-{i}")
            R.say(f"violation of {check.prop} on {m} ({MACHINES[m]}), call {i} of the tape: class={cls} {text}")
            check.viol = path
            R.say(f"VIOLATION property={check.prop} replay={path}")
            return cov
        for (rc, out, err), w in zip(done, range(8)):
            if rc not in (0, None) and not bad:
                cov[m]["ended_early"] = (out[-100:] + err[-300:])
        R.say(f"{check.prop}: {n} calls re-executed on {m} ({MACHINES[m]}) in {time.time() - t:.1f} s")
    return cov


def again(j):
    with tempfile.NamedTemporaryFile(prefix="fx-tape-") as f:
        f.write(bytes.fromhex(j["record"]))
        f.flush()
        v = judge(*wait(start(j["foreign"], f.name, 0, 1, 300), 240))
    return v if v and v[1] == j["class"] else None


def replay(j):
    why = prepare(j["foreign"])
    if why:
        R.die(f"{j['foreign']}: {why}")
    v = again(j)
    if v:
        R.say(f"REPRODUCED property={j['property']} class={v[1]} on {j['foreign']}: {v[2]}")
        return 1
    R.say("NOT-REPRODUCED")
    return 0


# -- whole simulations on another machine ------------------------------------------------------------

SIM_MACHINE = "s390x-unknown-linux-gnu"
SIM_DIR = R.HERE + "/sim"
SIM_ENV = dict(ENV, CARGO_TARGET_DIR=R.TARGET + "/foreign-sim")


def sim_start(*args):
    return subprocess.Popen(["cargo", "miri", "run", "--offline", "--quiet", "--target", SIM_MACHINE,
                             "--no-default-features", "--features", "wide,std,xml", "--", *map(str, args),
                             "--watchdog", "600"],
                            cwd=SIM_DIR, env=SIM_ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                            start_new_session=True)


def sim_prepare():
    for p in (glob.glob(R.TARGET + "/foreign-sim/miri/*/debug/.fingerprint/f*x*")
              + glob.glob(R.TARGET + "/foreign-sim/*/debug/.fingerprint/f*x*")):
        shutil.rmtree(p, ignore_errors=True)
    r = subprocess.run(["cargo", "miri", "setup", "--target", SIM_MACHINE], cwd=SIM_DIR, env=SIM_ENV,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        return "no standard library for it: " + r.stdout[-300:]
    rc, out, err = wait(sim_start("hashes", "--prop", "C03", "--seed", 1, "--from", 0, "--stride", 1, "--count", 0), 600)
    return None if rc == 0 else "not built: " + (out + err)[-300:]


class Whole:
    """The simulation itself, prepared for the other machine in the background."""

    def __init__(self):
        self.why = "not prepared"
        self.t = threading.Thread(target=self.go)
        self.t.start()

    def go(self):
        self.why = sim_prepare()


def sim_replay_once(path):
    """Class of the violation the replay file leads to, or None."""
    rc, out, _ = wait(sim_start("replay", path, "--quiet"), 600)
    m = re.search(r"^REPRODUCED property=\S+ class=(\S+) (.*)$", out, re.M)
    return m and (m[1], m[2])


def sim_run(check, whole, secs):
    """Runs of the property's simulation on the other machine, judged there like everywhere."""
    whole.t.join()
    m = SIM_MACHINE
    cov = {"kind": MACHINES[m]}
    if whole.why:
        R.say(f"note: no {m}: {whole.why}")
        cov["left_out"] = whole.why
        return {m: cov}
    t = time.time()
    seed = check.seed + 7_000_000
    base = [f"{check.tmp}/{m}.{w}" for w in range(8)]
    ps = [sim_start("run", "--prop", check.prop, "--seed", seed, "--from", w, "--stride", 8, "--count", 10**6,
                    "--secs", secs, "--out", base[w] + ".json", "--progress", base[w] + ".at") for w in range(8)]
    done = [wait(p, secs + 240) for p in ps]
    runs = ops = 0
    faults = {}
    bad = []
    for (rc, out, err), b in zip(done, base):
        if rc == 0:
            with open(b + ".json") as f:
                j = json.load(f)
            runs, ops = runs + j["runs"], ops + j["ops"]
            for k, v in j["faults"].items():
                faults[k] = faults.get(k, 0) + v
            if j["violation"]:
                bad.append(j["violation"])
        else:
            # (what the machine can't do, or not in the time there is, says nothing about the code)
            cov["ended_early"] = f"{rc}: " + err[-300:]
    cov.update(runs=runs, operations=ops, faults_injected=faults, seconds=round(time.time() - t, 1))
    for v in sorted(bad, key=lambda v: v["run"]):
        j = {"property": check.prop, "whole_on": m, "seed": seed, "run": v["run"], "class": v["class"],
             "violation": v["violation"], "choices": v["choices"]}
        path = check.write_replay(j, f"{m.split('-')[0]}-{seed}-{v['run']}")
        r = sim_replay_once(path)
        if not r or r[0] != v["class"]:
            continue
        _, out, _ = wait(sim_start("shrink", path, "--secs", 60), 400)
        try:
            k = json.loads(out.strip().splitlines()[-1])
        except (ValueError, IndexError):
            k = {}
        if k.get("class") == v["class"]:
            j = dict(k, whole_on=m)
            path = check.write_replay(j, f"{m.split('-')[0]}-{seed}-{v['run']}")
        R.say(f"violation of {check.prop} on {m} ({MACHINES[m]}), run {v['run']}: class={j['class']} {j['violation']}")
        for l in (j.get("trace") or [])[-25:]:
            R.say("   ", l[:300])
        check.viol = path
        R.say(f"VIOLATION property={check.prop} replay={path}")
        break
    R.say(f"{check.prop}: {runs} runs on {m} ({MACHINES[m]}) in {time.time() - t:.1f} s")
    return {m: cov}


def sim_replay(j, path):
    why = sim_prepare()
    if why:
        R.die(f"{j['whole_on']}: {why}")
    r = sim_replay_once(os.path.abspath(path))
    if r and r[0] == j["class"]:
        R.say(f"REPRODUCED property={j['property']} class={r[0]} on {j['whole_on']}: {r[1]}")
        return 1
    R.say("NOT-REPRODUCED")
    return 0
