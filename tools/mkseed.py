#!/usr/bin/env python3
"""mkseed.py FILE.py ...: creates /verif/seeded/<id>/ from descriptions of planted bugs and validates them.

Each FILE.py defines ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)...], DEMO (C source), and
optionally SRCS (sources of /repo/src linked with the demonstration)."""
import json, os, subprocess, sys, shutil
LIB = "algebra utils lcg gqtpar lnsrch linalg nlcg fmin vmlmb fltvector dblvector driver"
WORK = "/tmp/seedwork"


def sh(cmd, cwd=None, ok=True, timeout=900):
    r = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if ok and r.returncode:
        print(r.stdout[-3000:])
        raise SystemExit("failed: " + cmd)
    return r


def main():
    for f in sys.argv[1:]:
        d = dict(SRCS=LIB, CFLAGS="", SHELL=None)
        exec(open(f).read(), d)
        out = "/verif/seeded/" + d["ID"]
        os.makedirs(out, exist_ok=True)
        sh("rm -rf /tmp/seedwork && git -C /repo worktree prune && mkdir -p /tmp/seedwork && git -C /repo archive HEAD | tar x -C /tmp/seedwork && cd /tmp/seedwork && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm x")
        for name, old, new in d["EDITS"]:
            p = os.path.join(WORK, name)
            s = open(p).read()
            if s.count(old) != 1:
                raise SystemExit("%s: %d occurrences of %r in %s" % (d["ID"], s.count(old), old, name))
            open(p, "w").write(s.replace(old, new))
        diff = sh("git diff", WORK).stdout
        open(out + "/patch.diff", "w").write(diff)
        open(out + "/demo.c", "w").write(d["DEMO"].lstrip())
        open(out + "/demo.sh", "w").write("""#!/bin/bash
# exit 0 if the property holds, nonzero otherwise (run from the top of the sources)
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
srcs=
for f in %s; do srcs="$srcs $PWD/src/$f.c"; done
gcc -w -g -O1 -I"$PWD/src" %s -o "$tmp/demo" "$here/demo.c" $srcs -lm || exit 2
cd "$tmp" && timeout 100 ./demo
""" % (d["SRCS"], d["CFLAGS"]))
        os.chmod(out + "/demo.sh", 0o755)
        json.dump(dict(property=d["PROPERTY"], needs=" ".join(d["NEEDS"].split()), what_it_breaks=" ".join(d["BREAKS"].split())),
                  open(out + "/meta.json", "w"), indent=1)
        a = sh("bash %s/demo.sh" % out, "/repo", ok=False)
        b = sh("bash %s/demo.sh" % out, WORK, ok=False)
        # the tests, on the changed tree
        sh("git -C /repo apply %s/patch.diff" % out)
        try:
            sh("bash /opt/vp/build.sh")
            sh("bash /opt/vp/test.sh /tmp/seed_out.json")
            o = json.load(open("/tmp/seed_out.json"))
        finally:
            sh("git -C /repo checkout -- .")
        print("%-28s unchanged: %d  changed: %d  tests: %d/%d %s" % (d["ID"], a.returncode, b.returncode, len(o["passed"]), len(o["passed"]) + len(o["failed"]),
              "OK" if a.returncode == 0 and b.returncode not in (0, 2) and not o["failed"] else "*** BAD"))
        if a.returncode: print(a.stdout[-500:])
        if b.returncode == 2: print(b.stdout[-500:])
    sh("rm -rf /tmp/seedwork")
    sh("bash /opt/vp/build.sh")


main()
