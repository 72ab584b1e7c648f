#!/usr/bin/env python3
"""Builds the code under test from /repo's working tree, builds the driver of a
property, explores the property and writes the evidence file.

usage: check.py <property> [--tier quick|thorough] [--only FAMILY] [--replay FAMILY START INDEX]
       check.py --build-all
"""
import concurrent.futures, glob, hashlib, os, re, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.abspath(__file__))
SRC = os.path.join(VERIF, "src")
BUILD = os.environ.get("VERIF_BUILD") or os.path.join(VERIF, "build")
REPO = os.environ.get("VERIF_REPO", "/repo")
CODE = os.path.join(REPO, "gridutils")

SAN = ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]
PLAIN = ["-O2", "-g"]
LINKSAN = ["-fsanitize=address,undefined"]
MSAN = ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=memory"]


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def die(msg):
    sys.stderr.write(msg + "\n")
    sys.exit(2)


def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise RuntimeError(" ".join(cmd) + "\n" + r.stdout)
    return r.stdout


def compile_(kind, src, flags, depkey):
    """compiles one file (content-addressed cache); returns the object"""
    cc = "g++" if src.endswith(".cpp") else "clang" if kind == "msan" else "gcc"
    o = os.path.join(BUILD, "obj", sha(read(src), os.path.basename(src), " ".join(flags), depkey, cc) + ".o")
    if not os.path.exists(o):
        fd, tmp = tempfile.mkstemp(suffix=".o", dir=os.path.join(BUILD, "obj"))
        os.close(fd)
        run([cc] + flags + ["-c", src, "-o", tmp])
        os.rename(tmp, o)
    return o


def hasmain(o):
    return any(l.split()[-2:] == ["T", "main"] for l in run(["nm", o]).splitlines() if len(l.split()) >= 2)


def build(driver, need_plain, need_santools):
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    csrc = sorted(glob.glob(os.path.join(CODE, "*.c")))
    hkey = sha(*[read(h) for h in sorted(glob.glob(os.path.join(CODE, "*.h")))])
    skey = sha(*[read(h) for h in sorted(glob.glob(os.path.join(SRC, "stubs", "*.h")))])
    mkey = sha(*[read(h) for h in sorted(glob.glob(os.path.join(SRC, "*.h")))])
    inc = ["-I" + CODE, "-I" + os.path.join(SRC, "stubs"), "-w"]
    cxx = ["-O1", "-g", "-std=gnu++17", "-w", "-I" + CODE, "-I" + SRC]
    jobs = {}
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        drv = ex.submit(compile_, "drv", os.path.join(SRC, driver), cxx, sha(hkey, mkey))
        mcs = [ex.submit(compile_, "mc", os.path.join(SRC, f), cxx, sha(hkey, mkey)) for f in ("mc.cpp", "util.cpp")]
        for s in csrc:
            jobs[("san", s)] = ex.submit(compile_, "san", s, SAN + inc, hkey + skey)
            if need_santools:
                jobs[("msan", s)] = ex.submit(compile_, "msan", s, MSAN + inc, hkey + skey)
            if need_plain:
                jobs[("plain", s)] = ex.submit(compile_, "plain", s, PLAIN + inc, hkey + skey)
        if need_plain or need_santools:
            for st in glob.glob(os.path.join(SRC, "stubs", "*.c")):
                jobs[("plainstub", st)] = ex.submit(compile_, "stub", st, PLAIN + inc, hkey + skey)
                if need_santools:
                    jobs[("msanstub", st)] = ex.submit(compile_, "msan", st, MSAN + inc, hkey + skey)
        if need_santools:
            life = os.path.join(SRC, "msan", "life.c")
            jobs[("msan", life)] = ex.submit(compile_, "msan", life, MSAN + inc, hkey + skey)
        res = {k: j.result() for k, j in jobs.items()}
        lib = {"san": [], "plain": [], "msan": []}
        mains = {"san": [], "plain": [], "msan": []}
        plainstubs = [o for (k, s), o in sorted(res.items()) if k == "plainstub"]
        msanstubs = [o for (k, s), o in sorted(res.items()) if k == "msanstub"]
        for (k, s), o in sorted(res.items()):
            if k in lib:
                (mains if hasmain(o) else lib)[k].append((s, o))
        objs = [drv.result()] + [m.result() for m in mcs] + [o for _, o in lib["san"]]
        exe = os.path.join(BUILD, "bin", sha("exe", driver, *objs) + "-" + driver[:-4])
        link = []
        if not os.path.exists(exe):
            link.append((["g++"] + objs + LINKSAN + ["-lm"], exe))
        bindirs = {}
        for k in [k for k, n in (("plain", need_plain), ("san", need_santools), ("msan", need_santools)) if n]:
            stubs = msanstubs if k == "msan" else plainstubs
            libo = [o for _, o in lib[k]]
            d = os.path.join(BUILD, "bin", sha(k, *(libo + stubs + [o for _, o in mains[k]])) + "-" + k)
            bindirs[k] = d
            os.makedirs(d, exist_ok=True)
            for s, o in mains[k]:
                t = os.path.join(d, os.path.basename(s)[:-2])
                if not os.path.exists(t):
                    cmd = [{"msan": "clang"}.get(k, "gcc"), o] + libo + stubs + {"san": LINKSAN, "msan": ["-fsanitize=memory"]}.get(k, []) + ["-lm"]
                    link.append((cmd, t))

        def dolink(a):
            cmd, t = a
            fd, tmp = tempfile.mkstemp(dir=os.path.dirname(t))
            os.close(fd)
            run(cmd + ["-o", tmp])
            os.chmod(tmp, 0o755)
            os.rename(tmp, t)
        list(ex.map(dolink, link))
    return exe, bindirs


def faultlib():
    """the preloaded library which makes reading fail (verifier's own code)"""
    src = os.path.join(SRC, "fault.c")
    t = os.path.join(BUILD, "bin", sha("fault", read(src)) + "-fault.so")
    if not os.path.exists(t):
        fd, tmp = tempfile.mkstemp(dir=os.path.dirname(t))
        os.close(fd)
        run(["gcc", "-O1", "-w", "-shared", "-fPIC", src, "-o", tmp, "-ldl"])
        os.chmod(tmp, 0o755)
        os.rename(tmp, t)
    return t


def prune():
    """keeps the build cache small"""
    fs = [f for f in glob.glob(os.path.join(BUILD, "obj", "*.o"))]
    if len(fs) > 600:
        fs.sort(key=os.path.getmtime)
        for f in fs[:-300]:
            os.unlink(f)


REUSE = {"C13", "C14", "C15", "C22", "C23", "C25", "C31"}


def drivers():
    m = {}
    for f in sorted(glob.glob(os.path.join(SRC, "drv_*.cpp"))):
        for p in re.findall(r"^PROPERTY\((C\d+)\)", read(f).decode(), re.M):
            m[p] = os.path.basename(f)
    return m


def main():
    a = sys.argv[1:]
    if not a:
        die(__doc__)
    D = drivers()
    if a[0] == "--build-all":
        for d in sorted(set(D.values())):
            build(d, True, True)
        faultlib()
        return 0
    prop = a[0]
    if prop not in D:
        die("unknown property " + prop)
    tier = os.environ.get("VERIF_TIER", "quick")
    extra = []
    only = False
    i = 1
    while i < len(a):
        if a[i] == "--tier":
            tier = a[i + 1]
            i += 2
        elif a[i] == "--replay":
            extra = a[i:i + 4]
            only = True
            i += 4
        elif a[i] in ("--only", "--budget", "--workers"):
            extra += a[i:i + 2]
            only = only or a[i] == "--only"
            i += 2
        elif a[i] == "--list":
            extra += ["--list"]
            only = True
            i += 1
        else:
            die("unknown option " + a[i])
    text = read(os.path.join(SRC, D[prop])).decode()
    need_plain = "BINDIR: plain" in text
    need_san = "BINDIR: san" in text
    # one driver may serve several properties: "// BINDIR: san for Cxx Cyy"
    san_props = re.findall(r"BINDIR: san for ((?:C\d+ ?)+)", text)
    san_props = set(" ".join(san_props).split())
    need_san = prop in san_props
    need_plain = need_plain and prop not in san_props
    try:
        exe, bindirs = build(D[prop], need_plain, need_san)
        fault = faultlib()
    except RuntimeError as e:
        die("build failed:\n" + str(e))
    prune()
    env = dict(os.environ)
    env["LC_ALL"] = "C"
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=77:max_malloc_fill_size=1073741824:malloc_fill_byte=165:allocator_may_return_null=1:hard_rss_limit_mb=3000:detect_stack_use_after_return=0:symbolize=1:"
    # memory is used again at once where the state of a destroyed object must not be taken for that of its successor
    env["ASAN_OPTIONS"] += "quarantine_size_mb=0:thread_local_quarantine_size_kb=0" if prop in REUSE else "quarantine_size_mb=16"
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=77"
    env["MALLOC_PERTURB_"] = "165"
    env["MSAN_OPTIONS"] = "exit_code=77:symbolize=1:allocator_may_return_null=1"
    env["VERIF_FAULT"] = fault
    env["VERIF_MSAN"] = bindirs.get("msan") or ""
    bd = bindirs.get("san") or bindirs.get("plain") or ""
    cmd = [exe, "--property", prop, "--tier", tier, "--bindir", bd, "--seed", os.environ.get("VERIF_SEED", "1"), "--known", os.path.join(VERIF, "known-findings.txt"), "--replaydir", os.path.join(VERIF, "replay")] + extra
    if not only:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cmd += ["--evidence", os.path.join(VERIF, "evidence", prop + ".json")]
    sys.stdout.flush()
    return subprocess.run(cmd, env=env).returncode


if __name__ == "__main__":
    rc = main()
    sys.exit(rc if rc in (0, 1) else 2)
