"""Common machinery: enumerate cases, shard them over processes, collect coverage, report.

A check is a module checks/<id>*.py that defines
  PROPERTY, LEVEL ('model_checking' | 'exploration' | 'fault_enumeration'), RULE, ASSUMPTIONS
and either (Python-driven)
  build()                       builds what is needed from /repo
  cases(tier)                   yields the cases, in a fixed order, simplest first (JSON-able values)
  run(case, rec)                executes one case on the real code, calls rec.*
or (C++-driven)
  build() -> executable         built on harness/mc.hpp
  ARGS(tier)                    arguments of the executable
"""
import glob, hashlib, importlib.util, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
MAX_CONFIRM = 12


def h64(obj):
    s = obj if isinstance(obj, (bytes, bytearray)) else repr(obj).encode()
    return int.from_bytes(hashlib.blake2b(s, digest_size=8).digest(), "little")


class Rec:
    """What one process observed."""

    def __init__(self):
        self.evaluations = 0
        self.transitions = 0
        self.states = set()
        self.outcomes = set()
        self.traces = 0
        self.violations = {}   # key -> (index, case, message)
        self.counters = {}
        self.case = None
        self.index = None
        self.scratch = None

    def state(self, obj):
        self.states.add(h64(obj))

    def outcome(self, obj):
        self.outcomes.add(h64(obj))

    def trans(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def violation(self, key, message):
        if key not in self.violations:
            self.violations[key] = (self.index, self.case, str(message)[:2000])

    def dump(self):
        return {"evaluations": self.evaluations, "transitions": self.transitions,
                "states": sorted(self.states), "outcomes": sorted(self.outcomes), "traces": self.traces,
                "violations": self.violations, "counters": self.counters}

    def merge(self, d):
        self.evaluations += d["evaluations"]
        self.transitions += d["transitions"]
        self.states.update(d["states"])
        self.outcomes.update(d["outcomes"])
        self.traces += d["traces"]
        for k, v in d["violations"].items():
            if k not in self.violations or v[0] < self.violations[k][0]:
                self.violations[k] = tuple(v)
        for k, v in d["counters"].items():
            self.counters[k] = self.counters.get(k, 0) + v


def load(check_id):
    files = sorted(glob.glob(os.path.join(VERIF, "checks", check_id.lower() + "*.py")))
    if len(files) != 1:
        raise SystemExit("no (single) check module for " + check_id)
    spec = importlib.util.spec_from_file_location("check_" + check_id.lower(), files[0])
    m = importlib.util.module_from_spec(spec)
    sys.modules[spec.name] = m
    spec.loader.exec_module(m)
    return m


# ------------------------------------------------------------------ Python workers

def child_run(mod, batch, scratch_root, timeout):
    """Run a batch of (index, case) in a forked process. Returns (dict | None, reason)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            devnull = os.open(os.devnull, os.O_WRONLY)
            os.dup2(devnull, 1)
            if not os.environ.get("VERIF_DEBUG"):
                os.dup2(devnull, 2)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(int(timeout))
            rec = Rec()
            rec.scratch = os.path.join(scratch_root, "p%d" % os.getpid())
            os.makedirs(rec.scratch, exist_ok=True)
            os.chdir(rec.scratch)
            for index, case in batch:
                rec.index, rec.case = index, case
                rec.evaluations += 1
                try:
                    mod.run(case, rec)
                except Exception:
                    rec.violation("harness-exception", traceback.format_exc())
            os.chdir("/")
            shutil.rmtree(rec.scratch, ignore_errors=True)
            data = json.dumps(rec.dump()).encode()
            with os.fdopen(w, "wb") as f:
                f.write(data)
        except BaseException:
            code = 99
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    with os.fdopen(r, "rb") as f:
        while True:
            b = f.read(1 << 20)
            if not b:
                break
            chunks.append(b)
    _, status = os.waitpid(pid, 0)
    shutil.rmtree(os.path.join(scratch_root, "p%d" % pid), ignore_errors=True)
    if status == 0:
        return json.loads(b"".join(chunks)), ""
    if os.WIFSIGNALED(status):
        sig = os.WTERMSIG(status)
        return None, "hang" if sig == signal.SIGALRM else "killed by signal %d" % sig
    return None, "exit status %d" % os.WEXITSTATUS(status)


def py_worker(check_id, tier, shard, nshards, out, deadline):
    mod = load(check_id)
    if hasattr(mod, "setup_worker"):
        mod.setup_worker()
    rec = Rec()
    chunk = getattr(mod, "CHUNK", 40)
    case_timeout = getattr(mod, "CASE_TIMEOUT", 30)
    scratch_root = tempfile.mkdtemp(prefix="verif_%s_" % check_id, dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
    capped = 0
    crashes = 0
    try:
        batch = []

        def flush():
            nonlocal batch, crashes
            if not batch:
                return
            d, why = child_run(mod, batch, scratch_root, case_timeout + 2 * len(batch))
            if d is not None:
                rec.merge(d)
            else:
                for item in batch:
                    d, why = child_run(mod, [item], scratch_root, case_timeout)
                    if d is not None:
                        rec.merge(d)
                    else:
                        crashes += 1
                        rec.evaluations += 1
                        rec.index, rec.case = item
                        key = "crash"
                        if hasattr(mod, "crash_key"):
                            key = "crash:" + mod.crash_key(item[1])
                        rec.violation(key, "the process running the case ended abnormally: " + why)
            batch = []

        for index, case in enumerate(mod.cases(tier)):
            if index % nshards != shard:
                continue
            if time.time() > deadline or crashes > 200:
                capped += 1
                continue
            batch.append((index, case))
            if len(batch) >= chunk:
                flush()
        flush()
    finally:
        shutil.rmtree(scratch_root, ignore_errors=True)
    d = rec.dump()
    d["capped"] = capped
    with open(out + ".tmp", "w") as f:
        json.dump(d, f)
    os.rename(out + ".tmp", out)


def py_replay(check_id, case):
    mod = load(check_id)
    if hasattr(mod, "setup_worker"):
        mod.setup_worker()
    scratch_root = tempfile.mkdtemp(prefix="verif_%s_" % check_id)
    try:
        d, why = child_run(mod, [(0, case)], scratch_root, getattr(mod, "CASE_TIMEOUT", 30) * 3)
        if d is None:
            key = "crash"
            if hasattr(mod, "crash_key"):
                key = "crash:" + mod.crash_key(case)
            return {key: "the process running the case ended abnormally: " + why}
        return {k: v[2] for k, v in d["violations"].items()}
    finally:
        shutil.rmtree(scratch_root, ignore_errors=True)


# ------------------------------------------------------------------ reporting

def known_findings(prop):
    known = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                known[m.group(2)] = m.group(3).strip()
    return known


def slug(key):
    return re.sub(r"\s+", "_", key)


def python():
    p = "/opt/lue-venv/bin/python3"
    return p if os.path.exists(p) else sys.executable


def worker_env(mod):
    import build
    e = build.env()
    e["PYTHONPATH"] = os.path.join(build.LUE, "lib/python3.12") + ":" + os.path.join(VERIF, "lib")
    for k in ("VERIF_DEBUG", "LUE_REPO"):
        if k in os.environ:
            e[k] = os.environ[k]
    e.update(getattr(mod, "ENV", {}))
    return e


def check(check_id, tier, jobs):
    import build
    t0 = time.time()
    mod = load(check_id)
    exe = mod.build()
    build_s = time.time() - t0
    t1 = time.time()
    budget = float(os.environ.get("VERIF_BUDGET", {"quick": 420, "thorough": 3600}[tier]))
    cpp = hasattr(mod, "ARGS")
    work = tempfile.mkdtemp(prefix="verif_run_")
    rec = Rec()
    capped = 0
    errors = []
    try:
        procs = []
        for i in range(jobs):
            out = os.path.join(work, "out%d.json" % i)
            if cpp:
                cmd = [exe, "--shard", str(i), "--nshards", str(jobs), "--out", out, "--tier", tier,
                       "--seconds", str(int(budget))] + list(mod.ARGS(tier))
            else:
                cmd = [python(), os.path.join(VERIF, "lib/runner.py"), "worker", check_id, tier, str(i), str(jobs), out,
                       str(time.time() + budget)]
            log = open(os.path.join(work, "log%d" % i), "w")
            procs.append((i, out, cmd, subprocess.Popen(cmd, env=worker_env(mod), stdout=log, stderr=log)))
        for i, out, cmd, p in procs:
            try:
                p.wait(timeout=max(60, budget + 300 - (time.time() - t1)))
            except subprocess.TimeoutExpired:
                p.kill()
                errors.append("worker %d timed out" % i)
                continue
            if not os.path.exists(out):
                errors.append("worker %d (%s) gave no result (status %s): %s" % (
                    i, " ".join(cmd), p.returncode, open(os.path.join(work, "log%d" % i)).read()[-3000:]))
                continue
            d = json.load(open(out))
            capped += d.get("capped", 0)
            rec.merge(d)
    finally:
        shutil.rmtree(work, ignore_errors=True)

    # Confirm every violation by replaying its case, alone
    known = known_findings(mod.PROPERTY)
    confirmed, unconfirmed, seen_known = [], [], {}
    for key, (index, case, message) in sorted(rec.violations.items(), key=lambda kv: (kv[1][0], kv[0])):
        k = slug(key)
        if k in known:
            seen_known[k] = known[k]
            continue
        if len(confirmed) >= MAX_CONFIRM:
            confirmed.append((key, index, case, message, None))
            continue
        again = replay_case(mod, check_id, exe, case)
        if key in again or any(slug(x) not in known for x in again):
            d = os.path.join(EVID, "replays")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, "%s-%s.json" % (mod.PROPERTY, hashlib.sha1(key.encode()).hexdigest()[:10]))
            with open(path, "w") as f:
                json.dump({"property": mod.PROPERTY, "check": check_id, "key": key, "case": case,
                           "message": message,
                           "how": "python3 /verif/lib/runner.py replay " + path}, f, indent=1)
            confirmed.append((key, index, case, message, path))
        else:
            unconfirmed.append((key, index, case, message))

    samples = mod.samples(tier) if hasattr(mod, "samples") else None
    if samples is None:
        samples = []
        if not cpp:
            for n, c in enumerate(mod.cases(tier)):
                if n in (0, 7, 101, 1009, 5003):
                    samples.append(c)
                if n > 5003:
                    break
        else:
            p = subprocess.run([exe, "--samples", "--tier", tier] + list(mod.ARGS(tier)), env=worker_env(mod),
                               stdout=subprocess.PIPE, text=True)
            samples = [l for l in p.stdout.splitlines() if l][:8]
    level = mod.LEVEL
    cov = {"samples": samples}
    if level == "model_checking":
        cov.update(states=len(rec.states), transitions=rec.transitions,
                   traces_validated_against_impl=rec.traces)
        cov["distinct_outcomes"] = len(rec.outcomes)
        cov["executions"] = rec.evaluations
    else:
        cov.update(evaluations=rec.evaluations, distinct_nontrivial=len(rec.outcomes), rule=mod.RULE)
        if rec.states:
            cov["states"] = len(rec.states)
        if rec.transitions:
            cov["transitions"] = rec.transitions
    cov["rule"] = mod.RULE
    cov["exhaustive"] = capped == 0 and not errors
    cov["bound"] = getattr(mod, "BOUND", {}).get(tier, "") if isinstance(getattr(mod, "BOUND", {}), dict) else mod.BOUND
    if capped:
        cov["cases_not_run_within_time"] = capped
    cov["counters"] = rec.counters
    cov["build_s"] = round(build_s, 1)
    if unconfirmed:
        cov["not_reproduced"] = [(k, c, m[:300]) for k, _, c, m in unconfirmed]
    os.makedirs(EVID, exist_ok=True)
    ev = {"property": mod.PROPERTY, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
          "level": level, "coverage": cov, "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
          "wall_s": round(time.time() - t0, 1), "violations": len(confirmed)}
    with open(os.path.join(EVID, mod.PROPERTY + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("property %s tier %s: %d executions, %d states, %d transitions, %d distinct outcomes, %.1f s (build %.1f s)%s"
          % (mod.PROPERTY, tier, rec.evaluations, len(rec.states), rec.transitions, len(rec.outcomes),
             time.time() - t0, build_s, " CAPPED %d" % capped if capped else ""))
    for k, v in sorted(rec.counters.items()):
        print("  %s: %d" % (k, v))
    for k, what in sorted(seen_known.items()):
        print("KNOWN-FINDING: property=%s %s" % (mod.PROPERTY, what))
    for key, index, case, message, path in confirmed:
        print("---- %s\n  case: %s\n  %s" % (key, json.dumps(case)[:600], message[:1200]))
    for key, _, case, message in unconfirmed:
        print("not reproduced: %s %s %s" % (key, json.dumps(case)[:300], message[:300]))
    for e in errors:
        print("ERROR", e)
    if confirmed:
        print("VIOLATION property=%s replay=%s" % (mod.PROPERTY, confirmed[0][4]))
        return 1
    if errors:
        return 2
    return 0


def replay_case(mod, check_id, exe, case):
    if hasattr(mod, "ARGS"):
        p = subprocess.run([exe, "--replay", case if isinstance(case, str) else json.dumps(case)],
                           env=worker_env(mod), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True,
                           timeout=600)
        out = {}
        for line in p.stdout.splitlines():
            if line.startswith("VIOL\t"):
                _, key, msg = (line.split("\t", 2) + [""])[:3]
                out[key] = msg
        return out
    p = subprocess.run([python(), os.path.join(VERIF, "lib/runner.py"), "replaycase", check_id, json.dumps(case)],
                       env=worker_env(mod), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=600)
    try:
        return json.loads(p.stdout.splitlines()[-1])
    except Exception:
        return {}


def main(argv):
    sys.path.insert(0, os.path.join(VERIF, "lib"))
    if argv[0] == "worker":
        _, cid, tier, shard, n, out, deadline = argv
        py_worker(cid, tier, int(shard), int(n), out, float(deadline))
        return 0
    if argv[0] == "replaycase":
        print(json.dumps(py_replay(argv[1], json.loads(argv[2]))))
        return 0
    if argv[0] == "replay":
        d = json.load(open(argv[1]))
        mod = load(d["check"])
        exe = mod.build()
        got = replay_case(mod, d["check"], exe, d["case"])
        for k, m in got.items():
            print("reproduced:", k, "\n", m)
        if not got:
            print("did not reproduce")
        return 1 if got else 0
    cid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    jobs = int(os.environ.get("VERIF_JOBS", str(os.cpu_count() or 8)))
    import build
    try:
        return check(cid, tier, jobs)
    except build.BuildError as e:
        print("BUILD ERROR", e)
        return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
