"""dev helper: refactor.py [ids] -- behaviour-preserving edits (dev/refspec.py); every check must stay quiet.
Applies each to a scratch copy and runs the named checks."""
import json, os, shutil, subprocess, sys, tempfile, runpy, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
def one(r):
    t = tempfile.mkdtemp(prefix="refac.")
    try:
        tree = os.path.join(t, "repo")
        subprocess.run(["cp", "-a", "/repo", tree], check=True)
        for e in r["edits"]:
            fn = os.path.join(tree, e[2] if len(e) > 2 else r["file"])
            s = open(fn).read()
            if s.count(e[0]) < 1: return r["id"] + " BAD EDIT %r" % e[0][:80]
            open(fn, "w").write(s.replace(e[0], e[1]))
        out = []
        for p in r["checks"].split():
            s = time.time()
            env = dict(os.environ, VERIF_REPO=tree, VERIF_EVIDENCE=os.path.join(t, "ev"))
            q = subprocess.run(["timeout", "900", "python3-vt", "-m", "vf.run", p], cwd=VERIF, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            o = q.stdout.decode(errors="replace")
            bad = [l[:220] for l in o.splitlines() if "VIOLATION" in l or "Error" in l]
            b = ""
            f = os.path.join(t, "ev", p + ".json")
            if os.path.exists(f):
                b = json.load(open(f)).get("bounded") or ""
            out.append("%s rc=%d %ds %s %s" % (p, q.returncode, time.time() - s, " ".join(bad[:2]), o.strip().splitlines()[-1][:160] if o.strip() else ""))
        return ("!! " if any("rc=0" not in x for x in out) else "ok ") + r["id"] + "\n     " + "\n     ".join(out)
    finally:
        shutil.rmtree(t)
def main():
    R = runpy.run_path(os.path.join(HERE, "refspec.py"))["REF"]
    only = set(sys.argv[1:])
    R = [r for r in R if not only or r["id"] in only]
    with ThreadPoolExecutor(2) as ex:
        for x in ex.map(one, R): print(x, flush=True)
main()
