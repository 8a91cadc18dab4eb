"""setup_cmd: build everything the checks use (they rebuild incrementally afterwards)."""
import glob, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import build, runner
build.lue(["all"])
for f in sorted(glob.glob(os.path.join(V, "checks", "p*.py"))):
    runner.load(os.path.basename(f)[:3]).build()
print("built")
