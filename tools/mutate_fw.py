"""mutate_fw.py list <every> | run <outfile> <every> <budget> [<file filter>]
Small changes to the headers of the modelling framework, and which checks notice them. The stable tests do not compile the framework.
Measures the checks; works in scratch copies (/tmp/mut*), in a namespace of its own."""
import hashlib, json, os, re, subprocess, sys, time

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mutate
import build as B

V = "/verif"
PARTS = {"P23": ["p23_create.cpp", "p23_structure.cpp"], "P24": ["p24_local_ops.cpp"], "P25": ["p25_focal_ops.cpp"], "P26": ["p26_global_ops.cpp"],
         "P27": ["p27_flow_ops.cpp"], "P28": ["p28_routes.cpp"]}
PARTS.update(json.loads(os.environ.get("FW_PARTS", "{}")))
COST = ["P23", "P26", "P24", "P25", "P28", "P27"]
# C++ that does not change what is computed
SKIP = re.compile(r"^\s*(//|\*|#|/\*|@|static_assert|namespace|using|template|class|struct|public:|private:|requires|typename|friend|lue_hpx_assert|throw|case|HPX_REGISTER|"
                  r"LUE_|std::is_|concept)|lue_hpx_assert|HPX_ASSERT|= default|operator=\(|operator!=|operator==|\bstatic_assert|annotated_function|AnnotateFunction|typename|"
                  r"is_same_v|instrument|_v<|template<|using |std::move\(\w+\)\}|std::format|noexcept")


def deps():
    d = {}
    for c, parts in PARTS.items():
        for p, k in ((p, k) for p in parts for k in range(10)):
            flags = ["-DFW_PART=%d" % k]
            r = subprocess.run(["/usr/bin/g++", "-std=c++23", "-w", "-MM", os.path.join(V, "harness", p), "-I" + V + "/harness"] + flags + B.fw_include_flags() + B.include_flags(),
                               stdout=subprocess.PIPE, text=True)
            for f in r.stdout.replace("\\\n", " ").split():
                if f.startswith(B.REPO + "/source/framework"):
                    d.setdefault(os.path.relpath(f, B.REPO), set()).add(c)
                elif "serial_route_partition.hpp" in f:
                    pass
    return d


def mutants(repo, d):
    for f in sorted(d):
        comment = False
        for n, line in enumerate(open(os.path.join(repo, f)).read().split("\n")):
            if "/*" in line:
                comment = True
            c = comment
            if "*/" in line:
                comment = False
            if c or SKIP.search(line):
                continue
            if mutate.STMT.match(line) and "return" not in line:
                yield f, n, line, re.sub(r"\S.*", ";", line)
            for a, b in mutate.OPS:
                for m in list(re.finditer(a, line))[:2]:
                    if line.count('"', 0, m.start()) % 2:
                        continue
                    yield f, n, line, line[:m.start()] + m.expand(b.replace("\\", "\\\\")) + line[m.end():]


def choose(repo, d, every):
    h = lambda m: hashlib.sha1(repr(m).encode()).hexdigest()
    return sorted((m for m in mutants(repo, d) if int(h(m), 16) % every == 0), key=h)


def run(out, every, budget, flt=""):
    S, t0, done = B.REPO, time.time(), set()
    if os.path.exists(out):
        done = {json.loads(l)["id"] for l in open(out)}
    d = deps()
    for f, n, old, new in choose(S, d, every):
        if not re.search(flt, f):
            continue
        mid = hashlib.sha1(repr((f, n, old, new)).encode()).hexdigest()[:10]
        if mid in done or time.time() - t0 > budget:
            continue
        p = os.path.join(S, f)
        text = open(p).read()
        lines = text.split("\n")
        lines[n] = new
        open(p, "w").write("\n".join(lines))
        r = {"id": mid, "file": f, "line": n + 1, "old": old.strip(), "new": new.strip(), "result": "MISSED"}
        try:
            for c in sorted(d[f], key=COST.index):
                q = subprocess.run(["timeout", "1500", "./run.sh", c, "quick"], cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
                if q.returncode == 1 and "VIOLATION" in q.stdout:
                    r["result"] = c
                    break
                if "error:" in q.stdout or "BuildError" in q.stdout:
                    r["result"] = "does not build"
                    break
                if q.returncode:
                    r.setdefault("odd", []).append((c, q.returncode, q.stdout[-300:]))
        finally:
            open(p, "w").write(text)
        r["t"] = round(time.time() - t0)
        open(out, "a").write(json.dumps(r) + "\n")
        print(r["result"], f, n + 1, old.strip(), "=>", new.strip(), flush=True)


if __name__ == "__main__":
    if sys.argv[1] == "list":
        d = deps()
        k = choose(B.REPO, d, int(sys.argv[2]))
        for m in k:
            print(" ".join(sorted(d[m[0]])), m[0], m[1] + 1, m[2].strip(), "=>", m[3].strip())
        print(len(k), len(d))
    else:
        run(sys.argv[2], int(sys.argv[3]), float(sys.argv[4]), sys.argv[5] if len(sys.argv) > 5 else "")
