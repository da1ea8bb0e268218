"""dev helper: plant.py SPEC.py -- SPEC defines BUGS = [dict(id, property, file, edits=[(old,new[,count])], needs, breaks, demo)].
Creates /verif/seeded/<id>/ after confirming demo passes on the unchanged tree and fails with the patch."""
import json, os, shutil, subprocess, sys, tempfile, runpy
HERE = os.path.dirname(os.path.abspath(__file__))
SEEDED = os.path.join(os.path.dirname(os.path.dirname(HERE)), "seeded")
def sh(cmd, cwd):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, shell=isinstance(cmd, str))
    return p.returncode, p.stdout.decode(errors="replace")
def main():
    spec = runpy.run_path(sys.argv[1])["BUGS"]
    only = set(sys.argv[2:])
    work = tempfile.mkdtemp(prefix="plant.")
    tree = os.path.join(work, "repo")
    sh(["cp", "-a", "/repo", tree], "/")

    new_lines = subprocess.run(["git", "diff", "-U0", "c3ccd07", "HEAD"], cwd=tree, stdout=subprocess.PIPE).stdout
    for b in spec:
        if only and b["id"] not in only: continue
        d = os.path.join(SEEDED, b["id"])
        sh("git checkout -q -- .", tree)
        f = os.path.join(tree, b["file"])
        edits = b["edits"]
        bad = None
        for e in edits:
            fn = os.path.join(tree, e[2]) if len(e) > 2 else f
            s = open(fn).read()
            if s.count(e[0]) != 1: bad = "edit matches %d times: %r" % (s.count(e[0]), e[0]); break
            open(fn, "w").write(s.replace(e[0], e[1]))
        if bad: print(b["id"], "SKIP", bad); continue
        diff = sh("git diff -- stdlib src", tree)[1]
        # removed lines must come from the base commit
        blame_bad = []
        for line in sh("git diff -U0 -- stdlib src", tree)[1].splitlines():
            if line.startswith("@@"):
                o = line.split()[1][1:]; st, n = (o.split(",") + ["1"])[:2]
                if int(n):
                    bl = sh(["git", "blame", "-s", "-l", "-L", "%s,+%s" % (st, n), "HEAD", "--", cur], tree)[1]
                    blame_bad += [l for l in bl.splitlines() if not l.startswith("^") and not l.startswith("c3ccd07")]
            elif line.startswith("--- a/"): cur = line[6:]
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
        if "rdemo" in b:
            shutil.copy(os.path.join(HERE, "rdemo.sh"), os.path.join(d, "demo.sh"))
            open(os.path.join(d, "demo.rs"), "w").write('#![allow(dead_code)]\n#[path = "@UTILS@"]\nmod utils;\n\nfn main() {\n' + b["rdemo"].strip("\n") + "\n}\n")
        else:
            for x in ("host.js", "demo.sh"): shutil.copy(os.path.join(HERE, x), d)
            open(os.path.join(d, "demo.js"), "w").write("'use strict';\nconst { boot, eq, ok, be, num } = require('./host.js');\n" + b["demo"].lstrip())
        rc1, o1 = sh(["bash", os.path.join(d, "demo.sh")], tree)
        sh("git checkout -q -- .", tree)
        rc0, o0 = sh(["bash", os.path.join(d, "demo.sh")], tree)
        st = "OK" if rc0 == 0 and rc1 != 0 else "BAD"
        print(b["id"], st, "clean rc", rc0, "patched rc", rc1, [l[:120] for l in o1.strip().splitlines()[-1:]], ([l[:150] for l in o0.strip().splitlines()[-3:]] if rc0 else ""), "NOT-ORIGINAL " + str(blame_bad) if blame_bad else "")
        if st == "BAD":
            for n in os.listdir(d): os.unlink(os.path.join(d, n))
            os.rmdir(d)
    shutil.rmtree(work)
main()
