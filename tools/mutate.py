"""mutate.py list | run <outfile> [<shard> <nshards>] [<file filter>]
Small changes to the sources of the data model which the stable tests do not notice, and which checks notice them.
Measures the checks; works in scratch copies (/tmp/mut*), in a namespace of its own."""
import json, os, re, subprocess, sys, time, hashlib

DM = "source/data_model/"
CHECKS = [("cxx/source/array/same_shape", "P02 P22 P03 P14"), ("cxx/source/array/different_shape", "P03 P22 P14"), ("cxx/source/array", "P02 P03 P07 P22"),
          ("cxx/source/info/identity", "P04 P22 P14"), ("cxx/source/info/time", "P05 P22 P14"), ("cxx/source/info/space", "P06 P22 P14"),
          ("cxx/source/info/property", "P06 P22 P01"), ("cxx/source/object", "P01 P09 P22 P05 P06 P04 P17"), ("cxx/source/core", "P05 P02 P01 P22"),
          ("cxx/source/validate", "P14"), ("cxx/", "P14 P01 P22 P02 P03 P05 P06"), ("hdf5/source/issue", "P14"), ("hdf5/source/validate", "P14"), ("hdf5/", "P13 P12 P10 P11 P02 P08 P09 P14 P22"),
          ("hl/", "P17 P22"), ("gdal/", "P18"), ("python/source/core/array", "P07 P08 P22"), ("python/source/conversion", "P07 P08 P22"), ("python/", "P22 P07 P01 P14 P08")]
OPS = [(r" == ", " != "), (r" != ", " == "), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" && ", " || "), (r" \|\| ", " && "),
       (r" \+ 1\b", ""), (r" - 1\b", ""), (r" \+ ", " - "), (r" \* ", " + "), (r"\bif \(!", "if ("), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
       (r"\bif \((?!!)", "if (!"), (r"\b0\b", "1"), (r"\b1\b", "2"), (r"\b2\b", "1"), (r"::same\b", "::different"), (r"::box\b", "::point"), (r"::constant\b", "::variable"),
       (r"\bbegin\(\)", "begin() + 1"), (r"\.empty\(\)", ".empty() == false"), (r" \+= ", " = "), (r"\+\+", "--"), (r"H5F_ACC_RDWR", "H5F_ACC_RDONLY"), (r"\brow", "col")]
SKIP = re.compile(r"^\s*(//|\*|#|/\*|@|static_assert|namespace|using|template|class|\.def|R\"|\"|assert|throw|case|return std::format|std::format)|assert\(|LUE_|H5I_INVALID|for \(.*:|operator=|= default|noexcept|std::format")
STMT = re.compile(r"^\s+[\w:.\->\[\]()]+(\.|->|::)?\w+\([^;{}]*\);\s*$")


def mutants(repo):
    files = subprocess.run(["git", "-C", repo, "ls-files", DM], stdout=subprocess.PIPE, text=True).stdout.split()
    for f in files:
        if "/test" in f or not f.endswith((".cpp", ".hpp")) or "/translate/" in f or "/utility/" in f or "doc" in f.split("/"):
            continue
        comment = False
        for n, line in enumerate(open(os.path.join(repo, f)).read().split("\n")):
            if "/*" in line:
                comment = True
            c = comment
            if "*/" in line:
                comment = False
            if c or SKIP.search(line):
                continue
            if STMT.match(line) and "return" not in line:
                yield f, n, line, re.sub(r"\S.*", ";", line)
            for a, b in OPS:
                for m in list(re.finditer(a, line))[:2]:
                    if line.count('"', 0, m.start()) % 2:
                        continue
                    yield f, n, line, line[:m.start()] + m.expand(b.replace("\\", "\\\\")) + line[m.end():]


def checks_of(f):
    for p, c in CHECKS:
        if f[len(DM):].startswith(p):
            return c.split()
    return ["P01", "P22"]


def choose(repo, every):
    out = []
    for m in mutants(repo):
        h = int(hashlib.sha1(repr(m).encode()).hexdigest(), 16)
        if h % every == 0:
            out.append(m)
    return sorted(out, key=lambda m: hashlib.sha1(repr(m).encode()).hexdigest())


def run(out, every, budget, flt=""):
    S, V = "/repo", "/verif"     # inside the namespace
    t0 = time.time()
    done = set()
    if os.path.exists(out):
        done = {json.loads(l)["id"] for l in open(out)}
    base = json.load(open("/opt/vp/BASELINE.json"))
    want = set(base.get("passed") or base.get("stable") or base.get("tests"))
    for f, n, old, new in choose(S, every):
        if flt not in f:
            continue
        mid = hashlib.sha1(repr((f, n, old, new)).encode()).hexdigest()[:10]
        if mid in done or time.time() - t0 > budget:
            continue
        p = os.path.join(S, f)
        text = open(p).read()
        lines = text.split("\n")
        lines[n] = new
        open(p, "w").write("\n".join(lines))
        r = {"id": mid, "file": f, "line": n + 1, "old": old.strip(), "new": new.strip()}
        try:
            b = subprocess.run(["timeout", "900", "bash", "/opt/vp/build.sh"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if b.returncode:
                r["result"] = "does not build"
            else:
                subprocess.run(["timeout", "300", "bash", "/opt/vp/test.sh", "/tmp/mut/out.json"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                try:
                    passed = set(json.load(open("/tmp/mut/out.json"))["passed"])
                except Exception:
                    passed = set()
                if not want <= passed:
                    r["result"] = "tests"
                else:
                    r["result"] = "MISSED"
                    for c in checks_of(f):
                        q = subprocess.run(["timeout", "900", "./run.sh", c, "quick"], cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
                        if q.returncode == 1 and "VIOLATION" in q.stdout:
                            r["result"] = c
                            break
                        if q.returncode:
                            r.setdefault("odd", []).append((c, q.returncode, q.stdout[-300:]))
        finally:
            open(p, "w").write(text)
        open(out, "a").write(json.dumps(r) + "\n")
        print(r["result"], f, n + 1, old.strip(), "=>", new.strip(), flush=True)


if __name__ == "__main__":
    if sys.argv[1] == "list":
        k = choose(os.environ.get("R", "/repo"), int(sys.argv[2]))
        for m in k:
            print(m[0], m[1] + 1, m[2].strip(), "=>", m[3].strip())
        print(len(k))
    else:
        run(sys.argv[2], int(sys.argv[3]), float(sys.argv[4]), sys.argv[5] if len(sys.argv) > 5 else "")
