#!/usr/bin/env python3
"""Development helper: turns a description of a planted bug into /verif/seeded/<id>/ after confirming it.
usage: seed.py FILE.py [ID...]    FILE.py defines SEEDS = [dict(id, prop, needs, breaks, edits=[(file, old, new)], test=go source, race=bool)]
Scratch copies live under /tmp and are removed."""
import sys, os, subprocess, json, shutil, tempfile
ENV = "set -e; . /opt/vp/env.sh; "
DEMO = '''#!/bin/bash
# exit 0 if the behaviour is right, 1 if not
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
tmp="$(mktemp -d)"; trap 'rm -rf "$tmp"' EXIT
echo "{\\"Replace\\": {\\"$PWD/zz_demo_test.go\\": \\"$here/demo_test.go\\"}}" > "$tmp/ov.json"
%s go test%s -vet=off -overlay "$tmp/ov.json" -count=1 -timeout 120s -run 'TestDemo' . || exit 1
'''
def sh(cmd, cwd, t=400):
    try:
        p = subprocess.run(["bash", "-c", ENV + cmd], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t)
        return p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired as e:
        return 124, "timeout"
def main():
    g = {}
    exec(open(sys.argv[1]).read(), g)
    want = sys.argv[2:]
    for s in g["SEEDS"]:
        if want and s["id"] not in want: continue
        base = tempfile.mkdtemp(prefix="seed")
        w = base + "/repo"
        subprocess.run(["cp", "-a", "/repo", w], check=True)
        d = base + "/demo"; os.mkdir(d)
        open(d + "/demo_test.go", "w").write(s["test"])
        open(d + "/demo.sh", "w").write(DEMO % (s.get("env", ""), " -race" if s.get("race") else ""))
        ok = True
        rc, out = sh("bash %s/demo.sh" % d, w)
        if rc != 0:
            print(s["id"], "DEMO FAILS UNCHANGED", out[-1500:]); ok = False
        for f, old, new in s["edits"]:
            t = open(w + "/" + f).read()
            if t.count(old) != 1:
                print(s["id"], "EDIT matches %d times in %s: %r" % (t.count(old), f, old)); ok = False; break
            open(w + "/" + f, "w").write(t.replace(old, new))
        if ok:
            rc, out = sh("go build ./... && go vet -copylocks=false . >/dev/null 2>&1 || true; go build ./...", w)
            if rc != 0: print(s["id"], "NO BUILD", out[-800:]); ok = False
        if ok:
            rc, out = sh("bash %s/demo.sh" % d, w)
            if rc == 0: print(s["id"], "DEMO PASSES WITH PATCH"); ok = False
            else: tail = out[-300:]
        if ok:
            rc, out = sh("go test -vet=off -count=1 -timeout 5m ./...", w)
            if rc != 0: print(s["id"], "TESTS FAIL", out[-800:]); ok = False
        if ok:
            patch = subprocess.run(["git", "diff"], cwd=w, stdout=subprocess.PIPE).stdout
            # lines removed must be lines of the original repository
            o = "/verif/seeded/" + s["id"]
            os.makedirs(o, exist_ok=True)
            open(o + "/patch.diff", "wb").write(patch)
            for f in ("demo.sh", "demo_test.go"): shutil.copy(d + "/" + f, o)
            os.chmod(o + "/demo.sh", 0o755)
            json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(o + "/meta.json", "w"), indent=1)
            rc, out = sh("RADIX_REPO=%s /tmp/rc -prop %s -evidence %s/ev" % (w, s["prop"], base), w, 900)
            rc2, out2 = sh("RADIX_REPO=%s /tmp/rc -all" % w, w, 900)
            others = sorted({l.split()[0] for l in out2.splitlines() if " bad=" in l and " bad=0" not in l})
            print(s["id"], s["prop"], "CAUGHT" if rc == 1 and "VIOLATION property=" in out else "MISSED(rc=%d)" % rc, "by", others, "| demo:", tail.strip().replace("\n", " / ")[-160:])
            if rc: print("   ", out.strip().replace("\n", "\n    ")[:600])
        shutil.rmtree(base)
main()
