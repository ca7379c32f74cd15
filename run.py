#!/usr/bin/env python3
"""Driver of the simulations: builds /repo's working tree, runs seeded simulations, reports.

    run.py setup                    build everything once
    run.py check --prop C01         one check (tier and seed from VERIF_TIER, VERIF_SEED)
    run.py replay FILE              re-execute a replay file (exit 1: it fails the same way)
    run.py determinism              run the same seeds in many processes and compare event logs

See DESIGN.md.
"""
import argparse, glob, hashlib, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
TARGET = os.path.join(HERE, "target")
ENV = dict(
    os.environ,
    CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", RUST_BACKTRACE="0",
    RUSTUP_AUTO_INSTALL="0", CARGO_INCREMENTAL="0",
)
for k in ("RUSTFLAGS", "RUSTDOCFLAGS", "CARGO_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET",
          "CARGO_PROFILE_DEV_DEBUG", "CARGO_BUILD_RUSTFLAGS"):
    ENV.pop(k, None)
ENV.setdefault("HOME", "/root")
ENV["PATH"] = "/root/.cargo/bin:" + ENV.get("PATH", "/usr/bin:/bin")
STABLE = "1.90.0"

# Builds of fixnum that simulations load side by side: (profile, features).
NODES = {
    "A": ("dev", "std,i16,i32,i64,i128,quick-xml"),
    "B": ("release", "std,i16,i32,i64,i128,quick-xml"),
    "C": ("release", "i16,i32,i64,i128"),
    "D": ("dev", "i64"),
    "E": ("release", "std,i16,i32,i64,quick-xml"),
    "F": ("release", "i128"),
}
# The simulator itself, with fixnum linked in: (profile, features).
SIMS = {
    "checked": ("dev", "wide,std,xml"),
    "shipped": ("release", "wide,std,xml"),
    "lite": ("dev", "std,xml"),
    "bare": ("dev", "wide"),
}

# Per property: does it load NODES; {simulator: (quick runs, thorough runs)}; the components that
# ran real code or a stand-in; what a run is; assumptions.
from props import PROPS  # noqa: E402


def say(*a):
    print(*a, flush=True)


def die(msg):
    """The check itself failed: neither 0 nor 1."""
    say("ERROR", msg)
    sys.exit(2)


def digest(*roots):
    h = hashlib.sha256()
    for r in roots:
        files = [r] if os.path.isfile(r) else sorted(
            p for p in glob.glob(r + "/**/*", recursive=True) if os.path.isfile(p))
        for p in files:
            h.update(p.encode() + b"\0")
            with open(p, "rb") as f:
                h.update(f.read())
            h.update(b"\0")
    return h.hexdigest()


def sources():
    s = [REPO + "/src", REPO + "/Cargo.toml", REPO + "/build.rs"]
    for c in ("model", "surface", "node", "sim", "race"):
        s += [f"{HERE}/{c}/src", f"{HERE}/{c}/Cargo.toml"]
    return digest(*[p for p in s if os.path.exists(p)])


def cargo(crate, name, profile, features, stamp, bin_name):
    """Build one variant from /repo's working tree; returns the path of the artifact."""
    tdir = os.path.join(TARGET, name)
    os.makedirs(tdir, exist_ok=True)
    sf = os.path.join(tdir, "stamp")
    sub = "debug" if profile == "dev" else "release"
    art = os.path.join(tdir, sub, bin_name)
    old = open(sf).read() if os.path.exists(sf) else ""
    if old == stamp and os.path.exists(art):
        return art
    # Cargo goes by modification times; contents decide here.
    for p in glob.glob(f"{tdir}/*/.fingerprint/fixnum-*") + glob.glob(f"{tdir}/*/.fingerprint/fx*"):
        shutil.rmtree(p, ignore_errors=True)
    cmd = ["cargo", "build", "--offline", "--quiet", "--no-default-features", "--features", features]
    if profile == "release":
        cmd.append("--release")
    env = dict(ENV, CARGO_TARGET_DIR=tdir, RUSTUP_TOOLCHAIN=STABLE)
    r = subprocess.run(cmd, cwd=os.path.join(HERE, crate), env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        errs = [l for l in r.stdout.splitlines() if not l.startswith("warning")]
        die(f"building {crate} [{profile} {features}] failed:\n" + "\n".join(errs[-60:]))
    with open(sf, "w") as f:
        f.write(stamp)
    return art


def build(sims, nodes):
    stamp = sources()
    jobs = []
    with ThreadPoolExecutor(8) as ex:
        for n in sims:
            prof, feat = SIMS[n]
            jobs.append((n, ex.submit(cargo, "sim", "sim-" + n, prof, feat, stamp, "fxsim")))
        for n in nodes:
            prof, feat = NODES[n]
            jobs.append((n, ex.submit(cargo, "node", "node-" + n, prof, feat, stamp, "libfxnode.so")))
        out = {n: j.result() for n, j in jobs}
    if nodes:
        os.makedirs(TARGET + "/nodes", exist_ok=True)
        for n in nodes:
            dst = f"{TARGET}/nodes/{n}.so"
            tmp = dst + f".{os.getpid()}"
            shutil.copyfile(out[n], tmp)
            os.replace(tmp, dst)
    return out


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.spec = PROPS[prop]
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix=f"fx-{prop}-")
        self.runs = []          # worker results
        self.distinct = set()
        self.viol = None
        self.machines = None

    def bin(self, cfg):
        return self.bins[cfg]

    def exe(self, cfg, *args, timeout=None, preload=None):
        cmd = [self.bin(cfg), *args, "--nodes", TARGET + "/nodes"]
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)

    def seed_of(self, cfg):
        """Every build explores runs of its own."""
        return self.seed + 1_000_000 * list(SIMS).index(cfg)

    def search(self):
        cores = 8
        todo = [(cfg, q if self.tier == "quick" else t) for cfg, (q, t) in self.spec["sims"].items()]
        total = sum(n for _, n in todo)
        budget = self.spec.get("secs", (60, 600))[0 if self.tier == "quick" else 1]
        for cfg, count in todo:
            secs = max(5, int(budget * count / total) + 1)
            procs = []
            for w in range(cores):
                base = f"{self.tmp}/{cfg}.{w}"
                cmd = [self.bin(cfg), "run", "--prop", self.prop, "--seed", str(self.seed_of(cfg)), "--from", str(w),
                       "--stride", str(cores), "--count", str(count), "--secs", str(secs),
                       "--out", base + ".json", "--progress", base + ".at", "--nodes", TARGET + "/nodes"]
                procs.append((w, base, subprocess.Popen(cmd, stdout=subprocess.DEVNULL,
                                                        stderr=open(base + ".err", "w"))))
            ended = [(w, base, p, p.wait()) for w, base, p in procs]
            bad = []
            for w, base, p, rc in ended:
                if rc == 0:
                    j = json.load(open(base + ".json"))
                    self.runs.append(j)
                    d = open(base + ".json.distinct", "rb").read()
                    self.distinct.update(struct.unpack(f"<{len(d) // 8}Q", d))
                    v = j["violation"]
                    if v:
                        bad.append((v["run"], "viol", v, w))
                elif rc == 70:
                    die(f"{cfg} worker {w}: " + open(base + ".err").read()[-2000:])
                else:
                    at = int(open(base + ".at").read() or 0) if os.path.exists(base + ".at") else 0
                    how = "hang" if rc == 86 else "abort"
                    if rc not in (86,) and rc > 0 and rc != 101 and rc != 134:
                        die(f"{cfg} worker {w} exited {rc}: " + open(base + ".err").read()[-2000:])
                    if rc == 101:
                        die(f"{cfg} worker {w} panicked: " + open(base + ".err").read()[-2000:])
                    bad.append((at, how, {"rc": rc, "err": open(base + ".err").read()[-1500:]}, w))
            if bad:
                bad.sort(key=lambda b: (b[1] != "viol", b[0]))
                self.report(cfg, *bad[0], cores)
                return

    # -- reporting -----------------------------------------------------------------------------

    def write_replay(self, j, tag):
        os.makedirs(HERE + "/replays", exist_ok=True)
        path = f"{HERE}/replays/{self.prop}-{tag}.json"
        with open(path, "w") as f:
            json.dump(j, f, indent=1)
        return path

    def report(self, cfg, idx, how, v, worker, stride):
        seed = self.seed_of(cfg)
        tag = f"{cfg}-{seed}-{idx}"
        base = {"property": self.prop, "config": cfg, "seed": seed, "run": idx}
        if how == "viol":
            r = self.exe(cfg, "one", "--prop", self.prop, "--seed", str(seed), "--idx", str(idx))
            j = json.loads(r.stdout) if r.returncode == 0 and r.stdout.strip() else {"ok": True}
            if not j.get("ok") and j["class"] == v["class"]:
                path = self.write_replay(j, tag)
                s = self.exe(cfg, "shrink", path, "--secs", "20")
                if s.returncode == 0 and s.stdout.strip():
                    k = json.loads(s.stdout)
                    if not k.get("ok"):
                        path = self.write_replay(k, tag)
                        j = k
                confirmed = self.exe(cfg, "replay", path).returncode == 1
            else:
                # It needs what ran before it in this process: replay that history.
                runs = list(range(worker, idx + 1, stride))
                j = dict(base, runs=runs, violation=v["violation"], **{"class": v["class"]})
                path = self.write_replay(j, tag)
                confirmed = self.exe(cfg, "replay", path, timeout=400).returncode == 1
                if confirmed:
                    path = self.shorten(cfg, j, tag)
                    j = json.load(open(path))
            what = f"class={j['class']} {j['violation']}"
        else:
            stream = f"{self.tmp}/stream"
            r = self.exe(cfg, "one", "--prop", self.prop, "--seed", str(seed), "--idx", str(idx),
                         "--stream", stream)
            again = r.returncode < 0 or r.returncode in (86, 134)
            ch = [int(x) for x in open(stream).read().split()] if os.path.exists(stream) else []
            j = dict(base, choices=ch, violation=f"the process died ({how}): {v['err'].strip()}"[:3000],
                     **{"class": how})
            if not again:
                j.pop("choices")
                j["runs"] = list(range(worker, idx + 1, stride))
            path = self.write_replay(j, tag)
            confirmed = self.died(cfg, path)
            if confirmed and "choices" in j and how == "abort":
                path = self.shrink_dead(cfg, j, tag)
            what = j["violation"]
        say(f"violation of {self.prop} in build '{cfg}', seed {seed}, run {idx}: {what}")
        for l in (j.get("trace") or [])[-25:]:
            say("   ", l[:300])
        if not confirmed:
            say("note: the replay file did not reproduce this in a fresh process")
        self.viol = path
        say(f"VIOLATION property={self.prop} replay={path}")

    def died(self, cfg, path):
        try:
            rc = self.exe(cfg, "replay", path, "--quiet", timeout=300).returncode
        except subprocess.TimeoutExpired:
            return True
        return rc < 0 or rc in (86, 134)

    def shorten(self, cfg, j, tag):
        t = time.time()
        runs = j["runs"]
        size = len(runs) // 2
        while size >= 1 and time.time() - t < 60:
            i = 0
            while i < len(runs) - 1 and time.time() - t < 60:
                cut = runs[:i] + runs[min(i + size, len(runs) - 1):]
                if len(cut) < len(runs):
                    p = self.write_replay(dict(j, runs=cut), tag + "-try")
                    if self.exe(cfg, "replay", p, timeout=300).returncode == 1:
                        runs = cut
                        continue
                i += size
            size //= 2
        p = self.write_replay(dict(j, runs=runs), tag)
        try:
            os.remove(f"{HERE}/replays/{self.prop}-{tag}-try.json")
        except FileNotFoundError:
            pass
        return p

    def shrink_dead(self, cfg, j, tag):
        t = time.time()
        ch = j["choices"]
        n0 = len(ch)
        size = max(1, len(ch) // 2)
        while size >= 1 and time.time() - t < 25:
            i = 0
            while i < len(ch) and time.time() - t < 25:
                cut = ch[:i] + ch[i + size:]
                p = self.write_replay(dict(j, choices=cut), tag + "-try")
                if self.died(cfg, p):
                    ch = cut
                else:
                    i += size
            size //= 2
        try:
            os.remove(f"{HERE}/replays/{self.prop}-{tag}-try.json")
        except FileNotFoundError:
            pass
        return self.write_replay(dict(j, choices=ch, minimised_from=n0), tag)

    def evidence(self, search_s):
        add = lambda key: sum(r[key] for r in self.runs)
        merge = {}
        for key in ("faults", "runs_with_fault", "probes"):
            m = merge[key] = {}
            for r in self.runs:
                for k, v in r[key].items():
                    m[k] = m.get(k, 0) + v
        runs = add("runs")
        per_cfg = {}
        for r in self.runs:
            per_cfg[r["config"]] = per_cfg.get(r["config"], 0) + r["runs"]
        samples = [dict(s, build=r["config"]) for r in self.runs for s in r["samples"]][:6]
        cov = {
            "evaluations": runs,
            "distinct_nontrivial": len(self.distinct),
            "rule": self.spec["rule"] + " Each run is one seed; it counts as non-trivial when at least one"
                    " operation of fixnum ran and at least one fault fired or at least one scheduling decision"
                    " was taken, and as distinct by the hash of its whole event log.",
            "samples": samples,
            "runs_per_build": per_cfg,
            "seeds_per_hour": int(runs / max(search_s, 1e-9) * 3600),
            "operations_of_fixnum_checked": add("ops"),
            "events": add("events"),
            "scheduling_decisions": add("switches"),
            "decisions_drawn": add("draws"),
            "simulated_seconds": add("time_us") / 1e6 if add("time_us") else 0,
            "faults_injected": dict(sorted(merge["faults"].items())),
            "runs_with_fault": dict(sorted(merge["runs_with_fault"].items())),
            "rare_conditions_reached": dict(sorted(merge["probes"].items())),
            "ran_real_code": self.spec["real"],
            "ran_stand_ins": self.spec["stubs"],
        }
        if self.machines is not None:
            cov["reexecuted_on_other_machines"] = self.machines
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "exploration",
            "coverage": cov, "assumptions": self.spec["assumptions"],
            "wall_s": round(time.time() - self.t0, 2), "violations": 1 if self.viol else 0,
        }
        self.put_evidence(ev)
        say(f"{self.prop}: {runs} simulated runs, {len(self.distinct)} distinct, {add('ops')} operations, "
            f"{sum(merge['faults'].values())} faults, {ev['wall_s']} s")

    def put_evidence(self, ev):
        os.makedirs(HERE + "/evidence", exist_ok=True)
        with open(f"{HERE}/evidence/{self.prop}.json", "w") as f:
            json.dump(ev, f, indent=1)

    def run(self):
        try:
            if self.spec.get("miri"):
                import race
                race.run(self)
            else:
                machines = None
                if self.spec.get("foreign"):
                    import foreign
                    machines = foreign.Machines(self.tier)
                elsewhere = self.spec.get("whole", (0, 0))[0 if self.tier == "quick" else 1]
                if elsewhere:
                    import foreign
                    whole = foreign.Whole()
                self.bins = build(self.spec["sims"], self.spec.get("nodes", []))
                say(f"{self.prop}: built in {time.time() - self.t0:.1f} s")
                t = time.time()
                self.search()
                t = time.time() - t
                if machines and not self.viol:
                    self.machines = foreign.run(self, machines)
                if elsewhere:
                    whole.t.join()
                    if not self.viol:
                        self.machines = foreign.sim_run(self, whole, elsewhere)
                self.evidence(t)
        finally:
            shutil.rmtree(self.tmp, ignore_errors=True)
        return 1 if self.viol else 0


def needed(prop):
    s = PROPS[prop]
    return list(s.get("sims", {})), s.get("nodes", [])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("mode", choices=["setup", "check", "replay", "determinism"])
    ap.add_argument("file", nargs="?")
    ap.add_argument("--prop")
    ap.add_argument("--tier", choices=["quick", "thorough"])
    ap.add_argument("--seeds", type=int, default=400)
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED") or 1)
    tier = a.tier or os.environ.get("VERIF_TIER") or "quick"
    if a.mode == "setup":
        t = time.time()
        sims = sorted({c for p in PROPS for c in needed(p)[0]})
        nodes = sorted({c for p in PROPS for c in needed(p)[1]})
        import foreign
        others = foreign.Machines("quick"), foreign.Whole()
        build(sims, nodes)
        for o in others:
            o.t.join()
        if any(PROPS[p].get("miri") for p in PROPS):
            import race
            race.setup()
        say(f"setup: built in {time.time() - t:.1f} s")
        return 0
    if a.mode == "check":
        return Check(a.prop, tier, seed).run()
    if a.mode == "replay":
        j = json.load(open(a.file))
        prop = j["property"]
        if PROPS[prop].get("miri"):
            import race
            return race.replay(j)
        if j.get("foreign"):
            import foreign
            return foreign.replay(j)
        if j.get("whole_on"):
            import foreign
            return foreign.sim_replay(j, a.file)
        _, nodes = needed(prop)
        art = build([j["config"]], nodes)[j["config"]]
        r = subprocess.run([art, "replay", a.file, "--nodes", TARGET + "/nodes"])
        if r.returncode < 0 or r.returncode in (86, 134):
            say(f"REPRODUCED property={prop}: the process died ({r.returncode})")
            return 1
        return 1 if r.returncode == 3 else r.returncode
    return determinism(a.prop, a.seeds)


def determinism(only, seeds):
    """The same runs in processes of different strides and orders must leave the same event logs."""
    bad = 0
    for prop in sorted(PROPS):
        if only and prop != only:
            continue
        if PROPS[prop].get("miri"):
            import race
            race.compile_()
            bad |= race.determinism(32)
            continue
        sims, nodes = needed(prop)
        bins = build(sims, nodes)
        for cfg in sims:
            def go(args):
                fr, st = args
                r = subprocess.run([bins[cfg], "hashes", "--prop", prop, "--seed", "7", "--from", str(fr), "--stride",
                                    str(st), "--count", str(seeds), "--nodes", TARGET + "/nodes"],
                                   stdout=subprocess.PIPE, text=True)
                return r.stdout.splitlines()
            with ThreadPoolExecutor(8) as ex:
                logs = []
                for st in (1, 1, 3, 8):
                    logs.append(sorted(sum(ex.map(go, [(w, st) for w in range(st)]), [])))
            same = all(l == logs[0] for l in logs) and len(logs[0]) == seeds
            say(f"{prop} {cfg}: {len(logs[0])} runs in 13 processes: {'identical' if same else 'DIFFERENT'}")
            bad |= not same
    return 1 if bad else 0


if __name__ == "__main__":
    sys.modules["run"] = sys.modules["__main__"]
    sys.exit(main())
