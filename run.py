#!/usr/bin/env python3
"""Driver of all checks:  run.py check <PID> [--tier quick|thorough]   |  run.py replay <PID> [file]  |  run.py list

Builds /repo's current sources (AddressSanitizer), links them with the property's harness, explores the
property's bounded space exhaustively and writes evidence/<PID>.json.
Exit 0: held on everything explored; 1: VIOLATION line printed; anything else: the check itself failed."""
import sys, os, json, time, hashlib, subprocess, glob, shutil, re
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
EVID = os.path.join(VERIF, "evidence")
NPROC = 8

sys.path.insert(0, VERIF)
from props import PROPS

ASAN_OPTIONS = ("detect_leaks=0:malloc_context_size=2:abort_on_error=0:exitcode=99:detect_stack_use_after_return=0:"
                "max_malloc_fill_size=65536:malloc_fill_byte=167:allocator_may_return_null=1:"
                "quarantine_size_mb=8:handle_abort=1:symbolize=1:alloc_dealloc_mismatch=1:"
                "allow_user_segv_handler=0:detect_odr_violation=0")

class BuildError(Exception):
    pass

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode()); h.update(b"\0")
    return h.hexdigest()[:32]

def read(p):
    with open(p, "rb") as f:
        return f.read()

def gen_config(dst, mcc=""):
    """emv_utils_config.h, generated from the template as CMake would."""
    t = read(os.path.join(REPO, "src/emv_utils_config.h.in")).decode()
    val = {"EMV_UTILS_VERSION_STRING": "verif", "HAVE_TIME_H": "1", "HAVE_TIMESPEC_GET": "1", "HAVE_CLOCK_GETTIME": "1",
           "IsoCodes_JSON_PATH": "/usr/share/iso-codes/json", "MCC_JSON_BUILD_PATH": mcc or "/nonexistent/build/mcc_codes.json",
           "MCC_JSON_INSTALL_PATH": "/nonexistent/install/mcc_codes.json"}
    def cm(m):
        name = m.group(1)
        return "#define " + name + m.group(2) if name in val else "/* #undef %s */" % name
    t = re.sub(r"#cmakedefine[ \t]+(\w+)([^\n]*)", cm, t)
    t = re.sub(r"@(\w+)@", lambda m: val.get(m.group(1), ""), t)
    os.makedirs(dst, exist_ok=True)
    with open(os.path.join(dst, "emv_utils_config.h"), "w") as f:
        f.write(t)

SAN = ["-fsanitize=address,bounds", "-fno-sanitize-recover=bounds", "-fno-omit-frame-pointer"]

def compile_all(jobs):
    """jobs: list of (src, out, cmd). Objects are cached by content of everything they can depend on."""
    def one(j):
        src, out, cmd = j
        if os.path.exists(out):
            os.utime(out)
            return None
        tmp = out + ".tmp%d" % os.getpid()
        r = sh(cmd + ["-o", tmp, src])
        if r.returncode:
            return "%s\n%s" % (" ".join(cmd + [src]), r.stdout)
        os.rename(tmp, out)
        return None
    with ThreadPoolExecutor(NPROC) as ex:
        errs = [e for e in ex.map(one, jobs) if e]
    if errs:
        raise BuildError("\n".join(errs))

def hdr_digest():
    fs = sorted(glob.glob(REPO + "/src/*.h") + glob.glob(REPO + "/src/*.in") + glob.glob(REPO + "/src/*.hpp") + glob.glob(REPO + "/tools/*.h"))
    return digest(*[p.encode() + read(p) for p in fs])

def own_digest():
    fs = sorted(glob.glob(VERIF + "/mc/*.h") + glob.glob(VERIF + "/harness/*.h") + [p for p in glob.glob(VERIF + "/harness/*.cpp") if b"_WORLD_ONLY" in read(p)])
    return digest(*[p.encode() + read(p) for p in fs])

def build(pid, cfg):
    """Build one configuration; returns path of the executable."""
    name = pid + "-" + cfg["name"]
    wd = os.path.join(BUILD, name)
    cache = os.path.join(BUILD, "cache")
    os.makedirs(wd, exist_ok=True); os.makedirs(cache, exist_ok=True)
    inc = os.path.join(wd, "inc")
    gen_config(inc)
    cfgtxt = read(inc + "/emv_utils_config.h")
    hd = hdr_digest()
    iso = cfg.get("iso8859", "boost")
    san = cfg.get("san", SAN)
    opt = cfg.get("opt", ["-O1", "-g1"])
    base = opt + san + ["-I", inc, "-I", REPO + "/src", "-I", REPO + "/tools", "-w"] + (["-DEMV_DEBUG_ENABLED"] if cfg.get("debug", True) else [])
    if cfg.get("autoinit", True):
        base += ["-ftrivial-auto-var-init=pattern"]  # what a variable that was never set holds is not left to the compiler
    base += cfg.get("cflags", [])
    jobs, objs = [], []
    srcs = sorted(glob.glob(REPO + "/src/*.c") + glob.glob(REPO + "/src/*.cpp") + glob.glob(REPO + "/src/*.cc"))
    for s in srcs:
        b = os.path.basename(s)
        if re.match(r"iso8859_(boost|iconv|simple)\.", b) and not b.startswith("iso8859_%s." % iso):
            continue
        ext = []
        if b.startswith("pcsc"):
            if not cfg.get("pcsc"):
                continue
            ext = ["-DUSE_PCSCLITE", "-DHAVE_ARPA_INET_H", "-I/usr/include/PCSC"]
        if b.endswith((".cpp", ".cc")) and not cfg.get("cxxlib", True):
            continue
        comp = ["clang", "-std=gnu11"] if b.endswith(".c") else ["clang++", "-std=gnu++17"]
        cmd = comp + base + ext + ["-c"]
        o = os.path.join(cache, digest(" ".join(c for c in cmd if c != inc), hd, cfgtxt, s, read(s)) + ".o")
        jobs.append((s, o, cmd)); objs.append(o)
    for t in cfg.get("tools", []):
        s = os.path.join(REPO, "tools", t)
        cmd = ["clang", "-std=gnu11"] + base + cfg.get("tool_flags", {}).get(t, []) + ["-c"]
        o = os.path.join(cache, digest(" ".join(c for c in cmd if c != inc), hd, cfgtxt, s, read(s)) + ".o")
        jobs.append((s, o, cmd)); objs.append(o)
    qt = []
    if cfg.get("qt"):
        q = os.path.join(wd, "qt"); os.makedirs(q, exist_ok=True)
        for f in glob.glob(q + "/*"):
            os.unlink(f)
        qt = ["-fPIC"] + sh(["pkg-config", "--cflags", "Qt5Widgets"]).stdout.split() + ["-I", q, "-I", REPO + "/viewer"]
        with open(q + "/emv_viewer_config.h", "w") as f:
            f.write('#define EMV_VIEWER_VERSION_STRING "0.0.0"\n')
        for h in sorted(glob.glob(REPO + "/viewer/*.h")):
            if b"Q_OBJECT" in read(h):
                m = q + "/moc_" + os.path.basename(h)[:-2] + ".cpp"
                r = sh(["moc", "-p", REPO + "/viewer", h, "-o", m])
                if r.returncode:
                    raise BuildError("moc " + h + "\n" + r.stdout)
        for u in glob.glob(REPO + "/viewer/*.ui"):
            r = sh(["uic", u, "-o", q + "/ui_" + os.path.basename(u)[:-3] + ".h"])
            if r.returncode:
                raise BuildError("uic " + u + "\n" + r.stdout)
        qd = digest(*[read(f) for f in sorted(glob.glob(REPO + "/viewer/*.h") + glob.glob(REPO + "/viewer/*.ui"))])
        for s in sorted(glob.glob(REPO + "/viewer/*.cpp")) + sorted(glob.glob(q + "/moc_*.cpp")):
            cmd = ["clang++", "-std=gnu++17"] + base + qt + (["-Dmain=viewer_main"] if os.path.basename(s) == "emv-viewer.cpp" else []) + ["-c"]
            o = os.path.join(cache, digest(" ".join(c for c in cmd if c != inc), hd, qd, cfgtxt, s, read(s)) + ".o")
            jobs.append((s, o, cmd)); objs.append(o)
    hobjs = []
    od = own_digest()
    if qt:
        od = digest(od, qd)
    for s in [VERIF + "/mc/mc.cpp"] + [VERIF + "/harness/" + x for x in cfg["src"]]:
        cmd = (["clang", "-std=gnu11"] if s.endswith(".c") else ["clang++", "-std=gnu++17"]) + cfg.get("hopt", ["-O1", "-g1"]) + san + ["-I", inc, "-I", VERIF + "/mc", "-I", VERIF + "/harness", "-I", REPO + "/src", "-I", REPO + "/tools", "-Wno-everything"] + (["-DEMV_DEBUG_ENABLED"] if cfg.get("debug", True) else []) + cfg.get("hflags", []) + qt + ["-c"]
        o = os.path.join(cache, digest(" ".join(c for c in cmd if c != inc), hd, od, cfgtxt, s, read(s)) + ".o")
        jobs.append((s, o, cmd)); hobjs.append(o)
    compile_all(jobs)
    lib = os.path.join(wd, "librepo.a")
    if os.path.exists(lib):
        os.unlink(lib)
    r = sh(["ar", "rcs", lib] + objs)
    if r.returncode:
        raise BuildError(r.stdout)
    exe = os.path.join(wd, "harness")
    wrap = [] if cfg.get("nowrap") else ["-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free,--wrap=strdup"]
    cmd = ["clang++"] + san + hobjs + [lib] + wrap + cfg.get("ldflags", []) + ["-ljson-c", "-lboost_locale"] + (sh(["pkg-config", "--libs", "Qt5Widgets"]).stdout.split() if qt else []) + ["-o", exe]
    r = sh(cmd)
    if r.returncode:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout)
    return exe

def prune():
    c = os.path.join(BUILD, "cache")
    try:
        fs = sorted((os.path.getmtime(p), p) for p in glob.glob(c + "/*.o"))
        for _, p in fs[:-800]:
            os.unlink(p)
    except OSError:
        pass

def env_for(cfg):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = ASAN_OPTIONS
    e["UBSAN_OPTIONS"] = "halt_on_error=1:exitcode=99:print_stacktrace=1"
    e["LC_ALL"] = "C.UTF-8"; e["TZ"] = "UTC"
    e["ASAN_SYMBOLIZER_PATH"] = shutil.which("llvm-symbolizer") or shutil.which("llvm-symbolizer-18") or ""
    if not e["ASAN_SYMBOLIZER_PATH"]:
        del e["ASAN_SYMBOLIZER_PATH"]
    e.update(cfg.get("env", {}))
    return e

def write_replay(pid, cfg, v, path, extra=""):
    p = v["path"]
    with open(path, "w") as f:
        f.write("# property %s configuration %s\n# %s [%s] %s\n" % (pid, cfg["name"], v["kind"], v["key"], v["msg"].replace("\n", " ")))
        for l in extra.splitlines()[:60]:
            f.write("#   " + l + "\n")
        f.write("# replay with: python3 /verif/run.py replay %s %s\n" % (pid, path))
        f.write("%s %d %d" % (v["space"], v["outer"], len(p) // 2))
        for x in p:
            f.write(" %d" % x)
        f.write("\n")

def confirm(exe, cfg, v, replay, thorough):
    """Replays in fresh processes: the single case, then the item it belongs to, then the whole worker."""
    t = ["--thorough"] if thorough else []
    for mode, tmo in (("case", 90), ("item", 240)):
        try:
            r = sh([exe, "--replay", replay, "--mode", mode] + t, env=env_for(cfg), timeout=tmo)
        except subprocess.TimeoutExpired as e:
            return mode, "does not terminate (%d s)\n" % tmo
        if r.returncode == 3:
            return None, r.stdout
        if r.returncode != 0:
            return mode, r.stdout
    try:
        r = sh([exe, "--workers", str(NPROC), "--worker", str(v["worker"])] + t, env=env_for(cfg), timeout=600)
    except subprocess.TimeoutExpired:
        return None, "worker replay timed out"
    if r.returncode == 1:
        return "worker", r.stdout[-3000:]
    return None, r.stdout[-3000:]

def setup_failure(r):
    """The code under test failed before the exploration began (sanitizer report, fatal signal, endless loop, setup_failed())."""
    if r.returncode not in (98, 99, -4, -7, -8, -11, -14):
        return None
    m = re.search(r"(SETUP: [^\n]*|ERROR: AddressSanitizer[^\n]*|runtime error[^\n]*)", r.stderr)
    return {"kind": "crash", "key": "setup", "msg": m.group(1) if m else "ended with status %d" % r.returncode, "path": [], "space": "setup", "outer": 0, "worker": 0}

def check(pid, tier):
    t0 = time.time()
    P = PROPS[pid]
    thorough = tier == "thorough"
    os.makedirs(EVID, exist_ok=True)
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
          "coverage": {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [], "evaluations": 0,
                       "rule": P["rule"], "exhaustive": True, "configurations": {}},
          "assumptions": P.get("assumptions", []) + COMMON_ASSUMPTIONS, "violations": 0}
    cov = ev["coverage"]
    known = load_known(pid)
    rc = 0
    for cfg in P["configs"]:
        if cfg.get("tier") == "thorough" and not thorough:
            continue
        exe = build(pid, cfg)
        errp = os.path.join(BUILD, pid + "-" + cfg["name"], "stderr.")
        cmd = [exe, "--workers", str(NPROC), "--stderr", errp, "--hang-ms", str(cfg.get("hang_ms", 30000))] + (["--thorough"] if thorough else [])
        e = env_for(cfg)
        e["MC_SCRATCH"] = os.path.join(BUILD, pid + "-" + cfg["name"], "scratch")
        os.makedirs(e["MC_SCRATCH"], exist_ok=True)
        e["MC_KNOWN"] = "\n".join(k for k, _ in known)
        cfg.setdefault("env", {})["MC_SCRATCH"] = e["MC_SCRATCH"]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=e)
        try:
            res = json.loads(r.stdout)
        except ValueError:
            v = setup_failure(r)
            if v and setup_failure(subprocess.run([exe, "--list"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=e)):
                path = os.path.join(EVID, "%s.%s.replay" % (pid, cfg["name"]))
                write_replay(pid, cfg, v, path, r.stderr)
                print("%s [%s] %s\n%s" % (v["kind"], v["key"], v["msg"], r.stderr[:3000]))
                print("VIOLATION property=%s replay=%s" % (pid, path))
                ev["violations"] = 1; cov["exhaustive"] = False; rc = 1
                break
            print("harness failed (%s): %s\n%s" % (r.returncode, r.stdout[-2000:], r.stderr[-2000:]))
            return 2
        cov["states"] += res["distinct"]; cov["transitions"] += res["steps"]
        cov["traces_validated_against_impl"] += res["executions"] - res["duplicates"]
        cov["evaluations"] += res["executions"]
        cov["samples"] += res["samples"][:4]
        cov["configurations"][cfg["name"]] = {"executions": res["executions"], "duplicates": res["duplicates"], "max_choices": res["max_choices"],
                                              "spaces": res["spaces"], "outcomes": res["cover"], "explore_ms": res["ms"]}
        print("%s/%s: %d executions, %d transitions, %d distinct states, %d outcome classes, %.1f s" %
              (pid, cfg["name"], res["executions"], res["steps"], res["distinct"], len(res["cover"]), res["ms"] / 1000))
        v = res["violation"]
        if v:
            err = ""
            try:
                err = read(errp + str(v["worker"])).decode(errors="replace")
            except OSError:
                pass
            if not v["msg"] and err:
                m = re.search(r"(ERROR: AddressSanitizer[^\n]*|runtime error[^\n]*)", err)
                v["msg"] = m.group(1) if m else err[:200]
            path = os.path.join(EVID, "%s.%s.replay" % (pid, cfg["name"]))
            write_replay(pid, cfg, v, path, err)
            mode, out = confirm(exe, cfg, v, path, thorough)
            print("%s [%s] %s" % (v["kind"], v["key"], v["msg"]))
            print("\n".join(out.splitlines()[:60]))
            cov["exhaustive"] = False
            if mode is None:
                print("could not reproduce the reported violation in a fresh process; not reporting it")
                rc = 2
            else:
                ev["violations"] = 1
                with open(path, "a") as f:
                    f.write("# reproduced in mode %s\n" % mode)
                print("VIOLATION property=%s replay=%s" % (pid, path))
                rc = 1
            break
    for k, what in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, what))
    ev["wall_s"] = round(time.time() - t0, 2)
    tmp = os.path.join(EVID, pid + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.rename(tmp, os.path.join(EVID, pid + ".json"))
    prune()
    return rc

COMMON_ASSUMPTIONS = [
    "code is compiled by clang 18 with AddressSanitizer and array-bounds instrumentation, -O1, x86-64, glibc",
    "'states' counts distinct observed states by 64-bit hash in a 2^28-bit map (a lower bound)",
]

def load_known(pid):
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l)
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out

def main():
    a = sys.argv[1:]
    if not a or a[0] == "list":
        for k in sorted(PROPS):
            print(k, [c["name"] for c in PROPS[k]["configs"]])
        return 0
    tier = "quick"
    if "--tier" in a:
        i = a.index("--tier"); tier = a[i + 1]; del a[i:i + 2]
    try:
        if a[0] == "check":
            return check(a[1], tier)
        if a[0] == "build":
            for cfg in PROPS[a[1]]["configs"]:
                print(build(a[1], cfg))
            return 0
        if a[0] == "setup":
            for t in ("clang", "clang++", "ar"):
                if not shutil.which(t):
                    print("missing", t); return 2
            print("ok")
            return 0
        if a[0] == "replay":
            pid = a[1]
            files = a[2:] or sorted(glob.glob(os.path.join(EVID, pid + ".*.replay")))
            for f in files:
                m = re.search(r"configuration (\S+)", open(f).readline())
                for cfg in PROPS[pid]["configs"]:
                    if m and cfg["name"] == m.group(1):
                        exe = build(pid, cfg)
                        e = env_for(cfg); e["MC_SCRATCH"] = os.path.join(BUILD, pid + "-" + cfg["name"], "scratch"); os.makedirs(e["MC_SCRATCH"], exist_ok=True)
                        return subprocess.call([exe, "--replay", f] + (["--thorough"] if tier == "thorough" else []), env=e)
            return 2
    except BuildError as e:
        print("build failed:\n" + str(e)[:6000])
        return 2
    print(__doc__)
    return 2

if __name__ == "__main__":
    sys.exit(main())
