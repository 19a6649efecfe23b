#!/usr/bin/env python3
"""mkseed.py DEF.py [--check] : builds /verif/seeded/<id>/ from a definition and confirms it in /repo (restored afterwards).
DEF.py sets: id, prop, edits=[(file, old, new)], demo (C source) or demo_sh, needs, breaks, optional asan=True, libs."""
import sys, os, json, subprocess, shutil
R = "/repo"; V = "/verif"
DEMO = '''#!/bin/bash
# exit 0: behaves as documented; non-zero otherwise. Run in /repo after the build.
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d) || exit 9; trap 'rm -rf "$t"' EXIT
{compile} || exit 8
ASAN_OPTIONS=detect_leaks={leaks}:exitcode=77 timeout 60 "$t/demo"
'''
LIBS = "-Wl,--start-group _build/src/libemv.a _build/src/libemv_strings.a _build/src/libiso7816.a _build/src/libiso8825.a _build/src/libiso8859.a -Wl,--end-group -ljson-c -lboost_locale -lstdc++"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
def main():
    g = {}
    exec(open(sys.argv[1]).read(), g)
    d = os.path.join(V, "seeded", g["id"]); os.makedirs(d, exist_ok=True)
    if sh("git -C /repo status --porcelain").stdout.strip(): print("dirty repo"); return 2
    if "demo" in g:
        open(d + "/demo.c", "w").write(g["demo"])
        if g.get("asan"):
            comp = 'gcc -w -g -fsanitize=address,bounds -fno-sanitize-recover=bounds -Isrc -I_build/src -Itools %s -o "$t/demo" "$d/demo.c" $(ls src/*.c | grep -v "pcsc\\|iso8859_") %s' % (g.get("cflags", ""), LIBS)
        else:
            comp = 'gcc -w -g -Isrc -I_build/src %s -o "$t/demo" "$d/demo.c" %s' % (g.get("cflags", ""), LIBS)
        open(d + "/demo.sh", "w").write(DEMO.format(compile=comp, leaks=1 if g.get("leaks") else 0))
    else:
        open(d + "/demo.sh", "w").write(g["demo_sh"])
        for n, t in g.get("files", {}).items(): open(d + "/" + n, "w").write(t)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": g["prop"], "needs": g["needs"], "what_it_breaks": g["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    ok = True
    b = sh("bash /opt/vp/build.sh"); r0 = sh("bash %s/demo.sh" % d, cwd=R)
    print("demo unchanged:", r0.returncode); 
    if r0.returncode: print(r0.stdout[-1500:]); ok = False
    try:
        for f, o, n in g["edits"]:
            p = os.path.join(R, f); s = open(p).read(); assert s.count(o) == 1, (f, o, s.count(o)); open(p, "w").write(s.replace(o, n))
        open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
        t = sh("bash /opt/vp/test.sh /tmp/seed.json")
        base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]); ps = set(json.load(open("/tmp/seed.json"))["passed"])
        if base - ps: print("TESTS FAIL:", base - ps, t.stdout[-800:] if not ps else ""); ok = False
        r1 = sh("bash %s/demo.sh" % d, cwd=R); print("demo patched:", r1.returncode)
        if r1.returncode in (0, 8, 9): ok = False; print(r1.stdout[-1500:])
        for pid in g.get("checks", [g["prop"]]):
            c = sh("python3 run.py check %s" % pid, cwd=V); print("check", pid, "->", c.returncode, "CAUGHT" if c.returncode == 1 else "MISSED" if c.returncode == 0 else "ERROR")
            print("   ", "\n    ".join(l for l in c.stdout.splitlines() if "[" in l and ("assertion" in l or "crash" in l or "hang" in l))[:400])
            if c.returncode == 2: print(c.stdout[-1500:])
    finally:
        sh("git -C /repo checkout -- ."); sh("bash /opt/vp/build.sh")
    print("KEEP" if ok else "NOT VALID", g["id"])
    return 0 if ok else 1
sys.exit(main())
