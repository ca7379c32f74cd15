"""C10: caller threads on the interpreter's seeded scheduler (Miri). Used by run.py."""
import json, os, re, signal, subprocess, time

import run as R

DIR = R.HERE + "/race"
ALIAS = {"none": "-Zmiri-disable-stacked-borrows", "tree": "-Zmiri-tree-borrows"}
COMMON = "-Zmiri-deterministic-floats -Zmiri-ignore-leaks"
PLAN = [("none", 0.1), ("none", 0.01), ("none", 0.5), ("tree", 0.1), ("none", 0.03), ("none", 0.9), ("none", 0.25)]


def miri(flags, args=(), timeout=900):
    """Returns (exit code or None on timeout, standard output, error output)."""
    env = dict(R.ENV, CARGO_TARGET_DIR=R.TARGET + "/race", MIRIFLAGS=flags + " " + COMMON, RUSTFLAGS="-Awarnings",
               RUSTUP_TOOLCHAIN="nightly")
    p = subprocess.Popen(["cargo", "miri", "run", "--offline", "--quiet", "--", *args], cwd=DIR, env=env,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, err = p.communicate()
        return None, out, err
    return p.returncode, out, err


def flags(alias, rate, seed=None, span=None):
    f = f"{ALIAS[alias]} -Zmiri-preemption-rate={rate}"
    return f + (f" -Zmiri-seed={seed}" if span is None else f" -Zmiri-many-seeds={span[0]}..{span[1]}")


def verdict(rc, out, err):
    """None: held. (class, text): violated. Dies if the check itself failed."""
    if rc == 0:
        return None
    if rc is None:
        return "hang", "threads made no progress within the time limit"
    m = re.search(r"^FAIL (.*)$", out, re.M)
    if m:
        return "result", m.group(1)
    m = re.search(r"^error: (Undefined Behavior: .*)$", err, re.M)
    if m:
        return ("race" if "Data race" in m.group(1) else "ub"), m.group(1)
    m = re.search(r"^error: (the evaluated program deadlocked.*)$", err, re.M)
    if m:
        return "deadlock", m.group(1)
    m = re.search(r"^error: abnormal termination: (.*)$", err, re.M)
    if m:
        return "abort", m.group(1)
    R.die("interpreter: " + (out + err)[-3000:])


def compile_():
    """Build; a type that may no longer cross threads is a violation."""
    for p in R.glob.glob(R.TARGET + "/race/miri/*/debug/.fingerprint/fx*") + R.glob.glob(
            R.TARGET + "/race/miri/*/debug/.fingerprint/fixnum-*"):
        R.shutil.rmtree(p, ignore_errors=True)
    rc, out, err = miri(flags("none", 0.1, 0))
    if rc not in (0, None) and re.search(r"^error\[E\d+\]: |could not compile", err, re.M) and "WORK" not in out:
        m = re.search(r"error\[E0277\]: (.*(?:sent|shared) between threads safely.*)", err) or re.search(
            r"error\[E0277\]: (.*(?:UnwindSafe|Copy|Unpin).*)", err)
        if m:
            return "type", m.group(1)
        R.die("building the thread simulation failed:\n" + err[-3000:])
    return None


def setup():
    compile_()


def run(check):
    seed, quick = check.seed, check.tier == "quick"
    bad = compile_()
    R.say(f"{check.prop}: built in {time.time() - check.t0:.1f} s")
    t = time.time()
    limit = 75 if quick else 780
    base = (seed * 1000003) % 3000000000
    stats = {"runs": 0, "calls": 0, "turns": 0, "looks": 0, "torn": 0, "cold": 0}
    distinct, ops, per, samples = set(), {}, {}, []
    if bad:
        report(check, {"property": check.prop, "seed": 0, "compile": True, "class": bad[0], "violation": bad[1]})
    size, n = 64, 0
    while not bad and (time.time() - t < limit or n < 2):
        alias, rate = PLAN[n % len(PLAN)]
        lo = base + n * size
        n += 1
        rc, out, err = miri(flags(alias, rate, span=(lo, lo + size)), timeout=400)
        for m in re.finditer(r"^RUN hash=(\w+) threads=(\d+) calls=(\d+) turns=(\d+) looks=(\d+) torn=(\d+) "
                             r"first_alone=(\w+) ops=(.*)$", out, re.M):
            stats["runs"] += 1
            per[f"{alias}/{rate}"] = per.get(f"{alias}/{rate}", 0) + 1
            distinct.add(m.group(1))
            for i, k in ((3, "calls"), (4, "turns"), (5, "looks"), (6, "torn")):
                stats[k] += int(m.group(i))
            stats["cold"] += m.group(7) == "false"
            for o in set(m.group(8).split("+")):
                ops[o] = ops.get(o, 0) + 1
            if len(samples) < 6 and int(m.group(4)) > 2:
                samples.append(m.group(0))
        if rc == 0:
            continue
        bad = locate(check, alias, rate, lo, size, rc, out, err)
    el = time.time() - t
    check.viol = check.viol or None
    check.put_evidence({
        "property": check.prop, "tier": check.tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": stats["runs"], "distinct_nontrivial": len(distinct),
            "rule": check.spec["rule"] + " Each run is one seed; all of them run operations of fixnum on at least two "
                    "threads; distinct by the hash of its calls and of the order in which the threads started them.",
            "samples": samples, "seeds_per_hour": int(stats["runs"] / max(el, 1e-9) * 3600),
            "runs_per_setting": per, "operations_of_fixnum_checked": stats["calls"],
            "turns_between_threads_at_call_starts": stats["turns"],
            "looks_at_shared_amounts": stats["looks"],
            "faults_injected": {"sink_torn_down_in_thread": stats["torn"]},
            "runs_with_first_use_among_threads": stats["cold"], "runs_per_operation": dict(sorted(ops.items())),
            "simulated_seconds": 0,
            "ran_real_code": check.spec["real"], "ran_stand_ins": check.spec["stubs"],
        },
        "assumptions": check.spec["assumptions"], "wall_s": round(time.time() - check.t0, 2),
        "violations": 1 if check.viol else 0,
    })
    R.say(f"{check.prop}: {stats['runs']} simulated runs, {len(distinct)} distinct, {stats['calls']} operations, "
          f"{stats['turns']} turns, {time.time() - check.t0:.1f} s")


def locate(check, alias, rate, lo, size, rc, out, err):
    """The smallest failing seed of a failed round, minimised."""
    seeds = sorted(int(x) for x in re.findall(r"FAILING SEED: (\d+)", err))
    for s in seeds[:3] or range(lo, lo + size):
        rc1, out1, err1 = miri(flags(alias, rate, s), timeout=60)
        v = verdict(rc1, out1, err1)
        if v:
            w = re.search(r"^WORK (\d+) ?(\S*)$", out1, re.M)
            j = {"property": check.prop, "seed": s, "alias": alias, "rate": rate, "class": v[0], "violation": v[1],
                 "work": w and w.group(1), "calls": w and w.group(2).split(","), "trace": excerpt(out1, err1)}
            report(check, shrink(j) if w else j)
            return v
    R.die("the interpreter failed without a failing seed: " + (out + err)[-3000:])


def excerpt(out, err):
    return [l for l in (out + err).splitlines() if l.strip() and not l.startswith(("WORK", "warning"))][:60]


def attempt(j, calls, seed):
    rc, out, err = miri(flags(j["alias"], j["rate"], seed), [j["work"], ",".join(calls)], timeout=60)
    return verdict(rc, out, err), out, err


def shrink(j):
    """Fewer calls under some seed of the scheduler. The workload is kept apart from that seed."""
    t, calls, seed = time.time(), j["calls"], j["seed"]
    best = None

    def fails(cs):
        for s in [seed] + list(range(6)):
            v, out, err = attempt(j, cs, s)
            if v and v[0] == j["class"]:
                return s, v, out, err
            if time.time() - t > 90:
                break
        return None

    first = fails(calls)
    if not first:
        return j
    best = (calls, first)
    step = max(1, len(calls) // 2)
    while step >= 1 and time.time() - t < 90:
        i = 0
        while i < len(best[0]) and time.time() - t < 90:
            cut = best[0][:i] + best[0][i + step:]
            f = fails(cut) if len({c.split(":")[0] for c in cut}) else None
            if f:
                best = (cut, f)
            else:
                i += step
        step //= 2
    cs, (s, v, out, err) = best
    return dict(j, calls=cs, minimised_from=len(calls), seed=s, found_with_seed=j["seed"], shrunk=True,
                violation=v[1], trace=excerpt(out, err))


def report(check, j):
    path = check.write_replay(j, f"miri-{check.seed}-{j['seed']}")
    R.say(f"violation of {check.prop}, interpreter seed {j['seed']}: class={j['class']} {j['violation']}")
    for l in (j.get("trace") or [])[:25]:
        R.say("   ", l[:300])
    check.viol = path
    R.say(f"VIOLATION property={check.prop} replay={path}")


def replay(j):
    if j.get("compile"):
        v = compile_()
    elif j.get("shrunk"):
        compile_()
        v, out, err = attempt(j, j["calls"], j["seed"])
    else:
        compile_()
        rc, out, err = miri(flags(j["alias"], j["rate"], j["seed"]), timeout=120)
        v = verdict(rc, out, err)
    if v and v[0] == j["class"]:
        R.say(f"REPRODUCED property={j['property']} class={v[0]} {v[1]}")
        return 1
    R.say("not reproduced" + (f": class={v[0]} {v[1]}" if v else ""))
    return 0


def determinism(seeds):
    """The same seeds in two processes must print the same runs."""
    def go(alias, rate):
        rc, out, err = miri(flags(alias, rate, span=(7, 7 + seeds)))
        return rc, sorted(l for l in out.splitlines() if l.startswith("RUN"))
    bad = 0
    for alias, rate in PLAN[:4]:
        a, b = go(alias, rate), go(alias, rate)
        same = a == b and len(a[1]) == seeds
        R.say(f"C10 {alias}/{rate}: {len(a[1])} runs, twice: {'identical' if same else 'DIFFERENT'}")
        bad |= not same
    return bad
