#!/usr/bin/env python3
"""Build and run one check:  run.py ID [--tier quick|thorough] [--seed N] [--replay FILE]

Compiles what the check needs from /repo's current working tree (a content-hash
cache under /verif/.build avoids recompiling identical sources), runs the
harness, which writes evidence/<ID>.json, and passes on its exit status.
"""
import argparse, hashlib, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(V, ".build")

# id -> (harness sources, library mode)
#   asan: library and harness with AddressSanitizer, in one executable
#   sys:  optimised shared library and all tools installed into a TUXDIR
CHECKS = {}
for _id in "F01 F02 F03 F04 F05 F06 F07 F09 E01 E02 E03 M01 M02 I01 B01 T02 T01 C01 U01".split():
    CHECKS[_id] = "asan"
for _id in "C02 X01 X02 X03 X04 X05 X06 X07 X08 T03 A01 V01 D01 G01".split():
    CHECKS[_id] = "sys"
NEEDS_TOOLS = {"F09", "C01"}

DEFS = ["-DPACKAGE_NAME=\"Fuxedo\"", "-DPACKAGE_VERSION=\"0.0.1\"", "-DPACKAGE=\"fuxedo\"", "-DVERSION=\"0.0.1\"",
        "-DPACKAGE_STRING=\"Fuxedo 0.0.1\"", "-DPACKAGE_TARNAME=\"fuxedo\"", "-DPACKAGE_BUGREPORT=\"\"", "-DPACKAGE_URL=\"\"",
        "-DHAVE_CXX17=1", "-DHAVE_CXX_FILESYSTEM=1", "-DHAVE_CXX_EXPERIMENTAL_FILESYSTEM=1"]
INC = ["-I" + REPO + "/" + d for d in ("include", "src", "third_party/clara", "third_party/GSL")]
ASAN = ["-O1", "-g1", "-fsanitize=address,unreachable,return", "-fno-omit-frame-pointer",
        "-ftrivial-auto-var-init=pattern", "-U_FORTIFY_SOURCE"]
PLAIN = ["-O2", "-g1"]


def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    if p.returncode:
        sys.stderr.write("command failed: %s\n%s\n" % (" ".join(cmd), p.stdout[-6000:]))
        raise SystemExit(2)
    return p.stdout


def makefile():
    with open(REPO + "/Makefile.am") as f:
        t = f.read().replace("\\\n", " ")
    lib = re.search(r"^src_libfuxedo_la_SOURCES\s*=(.*)$", t, re.M).group(1).split()
    progs = re.search(r"^bin_PROGRAMS\s*=(.*)$", t, re.M).group(1).split()
    out = {}
    for p in progs:
        v = p.replace("/", "_")
        m = re.search(r"^%s_SOURCES\s*=(.*)$" % re.escape(v), t, re.M)
        srcs = m.group(1).split() if m else [p + ".cpp"]
        out[p] = [s for s in srcs if s.endswith(".cpp")]
    return [s for s in lib if s.endswith(".cpp")], out


def tree_hash(*extra):
    h = hashlib.sha256()
    for base in ("src", "include", "third_party/clara", "third_party/GSL"):
        for d, ds, fs in sorted(os.walk(REPO + "/" + base)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                if f.endswith((".o", ".lo", ".la")) or os.path.islink(p):
                    continue
                h.update(p.encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(fh.read())
    for p in (REPO + "/Makefile.am", REPO + "/RM", os.path.abspath(__file__)):
        with open(p, "rb") as fh:
            h.update(fh.read())
    for e in extra:
        h.update(e.encode() + b"\0")
    return h.hexdigest()[:24]


def pmap(f, xs):
    with ThreadPoolExecutor(max(2, os.cpu_count() or 8)) as ex:
        return list(ex.map(f, xs))


def cached(kind, build, *extra):
    os.makedirs(BUILD, exist_ok=True)
    key = kind + "-" + tree_hash(kind, *extra)
    final = os.path.join(BUILD, key)
    if os.path.isdir(final):
        os.utime(final)
        return final
    tmp = tempfile.mkdtemp(prefix="tmp-", dir=BUILD)
    try:
        build(tmp)
        os.chmod(tmp, 0o755)
        try:
            os.rename(tmp, final)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
            if not os.path.isdir(final):
                raise
    except BaseException:
        shutil.rmtree(tmp, ignore_errors=True)
        raise
    old = sorted((os.path.join(BUILD, d) for d in os.listdir(BUILD) if d.startswith(kind + "-")), key=os.path.getmtime)
    for d in old[:-6]:
        if time.time() - os.path.getmtime(d) > 3600:
            shutil.rmtree(d, ignore_errors=True)
    return final


def compile_cmd(flags, src, obj):
    return ["g++", "-std=gnu++17", "-w", "-fPIC", "-pthread"] + flags + DEFS + INC + ["-c", src, "-o", obj]


def build_asan(d):
    lib, _ = makefile()

    def one(s):
        o = os.path.join(d, s.replace("/", "_")[:-4] + ".o")
        sh(compile_cmd(ASAN, REPO + "/" + s, o))
        return o
    objs = pmap(one, lib)
    sh(["ar", "rcs", d + "/libfuxedo.a"] + objs)
    for o in objs:
        os.unlink(o)


def build_sys(d):
    lib, progs = makefile()
    for s in ("bin", "lib", "include", "udataobj", "obj"):
        os.mkdir(d + "/" + s)
    srcs = sorted(set(lib) | {s for v in progs.values() for s in v})

    def one(s):
        o = os.path.join(d, "obj", s.replace("/", "_")[:-4] + ".o")
        sh(compile_cmd(PLAIN, REPO + "/" + s, o))
        return s, o
    objs = dict(pmap(one, srcs))
    sh(["g++", "-shared", "-pthread", "-Wl,-soname,libfuxedo.so.0", "-o", d + "/lib/libfuxedo.so.0"] + [objs[s] for s in lib] + ["-lstdc++fs"])
    for l in ("fuxedo", "tmib", "tux", "buft", "fml", "fml32", "engine"):
        os.symlink("libfuxedo.so.0", d + "/lib/lib%s.so" % l)

    def link(p):
        sh(["g++", "-pthread", "-o", d + "/bin/" + os.path.basename(p)] + [objs[s] for s in progs[p]] +
           ["-L" + d + "/lib", "-lfuxedo", "-lstdc++fs", "-Wl,-rpath,$ORIGIN/../lib"])
    pmap(link, list(progs))
    for f in os.listdir(REPO + "/include"):
        if f.endswith(".h"):
            shutil.copy(REPO + "/include/" + f, d + "/include/")
    shutil.copy(REPO + "/RM", d + "/udataobj/RM")
    shutil.copy(REPO + "/include/tpadm", d + "/udataobj/tpadm")
    shutil.rmtree(d + "/obj")


def build_harness(cid, libdir, mode):
    src = os.path.join(V, "harness", cid + ".cpp")
    texts = []
    for dd in ("lib", "harness"):
        for f in sorted(os.listdir(os.path.join(V, dd))):
            if f.endswith((".hpp", ".h")) or f == cid + ".cpp" or (f.startswith(cid + "_")):
                with open(os.path.join(V, dd, f)) as fh:
                    texts.append(f + "\0" + fh.read())

    def b(d):
        common = ["g++", "-std=gnu++17", "-w", "-pthread", "-I" + V + "/lib", "-I" + V + "/harness"] + DEFS + INC
        jobs = []
        if mode == "asan":
            jobs.append(common + ASAN + [src, libdir + "/libfuxedo.a", "-lstdc++fs", "-rdynamic", "-ldl", "-o", d + "/check"])
        else:
            jobs.append(common + ["-O1", "-g1", "-rdynamic", src, "-L" + libdir + "/lib", "-lfuxedo", "-Wl,-rpath," + libdir + "/lib", "-ldl", "-lstdc++fs", "-o", d + "/check"])
        pmap(sh, jobs)
    return cached("h" + cid, b, libdir, *texts)


def setup():
    """Fills the build cache; every check still rebuilds what has changed."""
    libs = {m: cached(m, build_asan if m == "asan" else build_sys) for m in ("asan", "sys")}
    pmap(lambda cid: build_harness(cid, libs[CHECKS[cid]], CHECKS[cid]),
         [c for c in sorted(CHECKS) if os.path.exists(os.path.join(V, "harness", c + ".cpp"))])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    ap.add_argument("--replay")
    ap.add_argument("--no-evidence", action="store_true")
    a, rest = ap.parse_known_args()
    cid = a.id
    if cid == "setup":
        setup()
        return
    mode = CHECKS[cid]
    t0 = time.time()
    env = dict(os.environ)
    for k in list(env):
        if k.startswith(("TUX", "FLDTBL", "FIELDTBL", "ULOG", "NADM")):
            del env[k]
    env["LC_ALL"] = "C.UTF-8"
    libdir = cached(mode, build_asan if mode == "asan" else build_sys)
    if mode == "sys" or cid in NEEDS_TOOLS:
        sysdir = libdir if mode == "sys" else cached("sys", build_sys)
        env["TUXDIR"] = sysdir
    hd = build_harness(cid, libdir, mode)
    env["VERIF_HARNESS"] = os.path.join(V, "harness")
    env["VERIF_REPO"] = REPO
    scratch = tempfile.mkdtemp(prefix="fuxverif-%s-" % cid)
    os.chmod(scratch, 0o1777)
    env["VERIF_SCRATCH"] = scratch
    env["TMPDIR"] = scratch
    out = os.path.join(V, "out")
    os.makedirs(out, exist_ok=True)
    cmd = [hd + "/check", "--tier", a.tier, "--seed", a.seed, "--scratch", scratch, "--out", out,
           "--known", os.path.join(V, "known_findings.txt")]
    if not a.no_evidence:
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        cmd += ["--evidence", os.path.join(V, "evidence", cid + ".json")]
    if a.replay:
        cmd += ["--replay", os.path.abspath(a.replay)]
    sys.stderr.write("[%s] built in %.1f s\n" % (cid, time.time() - t0))
    try:
        rc = subprocess.run(cmd + rest, env=env, cwd=scratch).returncode
    finally:
        if os.environ.get("VERIF_KEEP"):
            sys.stderr.write("scratch kept: %s\n" % scratch)
        else:
            subprocess.run(["chmod", "-R", "u+rwx", scratch])
            shutil.rmtree(scratch, ignore_errors=True)
    sys.stderr.write("[%s] total %.1f s, exit %d\n" % (cid, time.time() - t0, rc))
    sys.exit(rc if rc in (0, 1) else 2)


main()
