#!/bin/bash
# dev helper: refapply.sh ID -> /tmp/rfx/repo with the refactoring applied
find /tmp/rfx -delete 2>/dev/null; mkdir -p /tmp/rfx; cp -a /repo /tmp/rfx/repo
python3 - "$1" <<'PY'
import runpy, sys
R={r['id']:r for r in runpy.run_path('/verif/dev/refspec.py')['REF']}
r=R[sys.argv[1]]
for e in r['edits']:
    f='/tmp/rfx/repo/'+(e[2] if len(e)>2 else r['file']); s=open(f).read(); assert e[0] in s, e[0]; open(f,'w').write(s.replace(e[0],e[1]))
PY
