"""Shared machinery of the checks: build of the library from /repo's working tree,
running of the drivers, running of TLC, evidence and violation reporting.  stdlib only."""
import concurrent.futures, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
LIBSRC = ("object callback parsetree pt_head handle cv match result read io expand syntax "
          "print cvec buf util history regex getline").split()
NCPU = os.cpu_count() or 4


class CheckError(Exception):
    """The machinery itself failed: error exit (2), never a verdict."""


def sh(cmd, cwd=None, timeout=300, env=None, input=None):
    return subprocess.run(cmd, cwd=cwd, timeout=timeout, env=env, input=input,
                          stdout=subprocess.PIPE, stderr=subprocess.PIPE)


class Work:
    """A scratch directory outside /repo and /verif, removed at the end."""
    def __init__(self, tag):
        base = os.environ.get("VERIF_SCRATCH", "/tmp")
        self.dir = tempfile.mkdtemp(prefix="vcli-%s-" % tag, dir=base)

    def path(self, *a):
        return os.path.join(self.dir, *a)

    def close(self):
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(self.dir, ignore_errors=True)


def build(work, san=False):
    """Copies /repo's sources into the scratch directory, configures, builds the
    library objects.  Returns the directory.  Never touches /repo."""
    d = work.path("b-san" if san else "b")
    if os.path.isdir(d):
        return d
    os.makedirs(d)
    skip = {"build.c", "cligen_config.h", "cligen_parse.tab.c", "cligen_parse.tab.h",
            "lex.cligen_parse.c"}
    for f in sorted(os.listdir(REPO)):
        p = os.path.join(REPO, f)
        if os.path.isfile(p) and f not in skip and (
                f.endswith((".c", ".h", ".y", ".l", ".in", ".ac")) or f in ("configure",)):
            shutil.copy2(p, os.path.join(d, f))
    for sub in ("config-aux", "scripts"):
        p = os.path.join(REPO, sub)
        if os.path.isdir(p):
            shutil.copytree(p, os.path.join(d, sub))
    os.makedirs(os.path.join(d, "test"), exist_ok=True)
    p = os.path.join(REPO, "test", "config.sh.in")
    if os.path.isfile(p):
        shutil.copy2(p, os.path.join(d, "test", "config.sh.in"))
    with open(os.path.join(d, ".version"), "w") as f:
        f.write("7.3.0\n")
    env = dict(os.environ, CFLAGS="-g -O1 -Wall", CC="gcc", LC_ALL="C")
    r = sh(["./configure", "--with-libxml2"], cwd=d, env=env)
    if r.returncode:
        raise CheckError("configure failed: " + r.stderr.decode(errors="replace")[-800:])
    with open(os.path.join(d, "build.c"), "w") as f:
        f.write('char CLIGEN_BUILDSTR[64]="vcli"; char CLIGEN_VERSION[64]="7.3.0";\n')
    for c in (["bison", "-y", "-d", "-l", "-b", "cligen_parse", "-p", "cligen_parse", "-o",
               "cligen_parse.tab.c", "cligen_parse.y"],
              ["flex", "-P", "cligen_parse", "-o", "lex.cligen_parse.c", "cligen_parse.l"]):
        r = sh(c, cwd=d)
        if r.returncode:
            raise CheckError("%s failed: %s" % (c[0], r.stderr.decode(errors="replace")[-800:]))
    srcs = ["cligen_%s.c" % s for s in LIBSRC] + ["build.c", "cligen_parse.tab.c",
                                                   "lex.cligen_parse.c"]
    # sources added by a change belong to the library too
    known = set(srcs) | {"cligen_hello.c", "cligen_file.c", "cligen_tutorial.c"}
    srcs += [f for f in sorted(os.listdir(d)) if f.startswith("cligen_") and f.endswith(".c")
             and f not in known]
    flags = ["-g", "-O1", "-DHAVE_CONFIG_H", "-I.", "-I/usr/include/libxml2", "-w"]
    if san:
        flags += ["-fsanitize=address", "-fno-omit-frame-pointer"]

    def cc(s):
        r = sh(["gcc"] + flags + ["-c", s, "-o", s[:-2] + ".o"], cwd=d)
        return s, r
    objs = []
    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
        for s, r in ex.map(cc, srcs):
            if r.returncode:
                raise CheckError("compiling %s failed: %s" % (s, r.stderr.decode(errors="replace")[-800:]))
            objs.append(s[:-2] + ".o")
    if not os.path.exists(os.path.join(d, "cligen")):
        os.symlink(".", os.path.join(d, "cligen"))
    with open(os.path.join(d, "OBJS"), "w") as f:
        f.write("\n".join(objs))
    return d


def driver(work, name, san=False):
    """Compiles /verif/harness/<name>.c against the fresh library objects."""
    d = build(work, san)
    out = os.path.join(d, name)
    if os.path.exists(out):
        return out
    objs = [os.path.join(d, o) for o in open(os.path.join(d, "OBJS")).read().split()]
    flags = ["-g", "-O1", "-DHAVE_CONFIG_H", "-I" + d, "-I/usr/include/libxml2", "-I" + os.path.join(VERIF, "harness"), "-w"]
    if san:
        flags += ["-fsanitize=address"]
    r = sh(["gcc"] + flags + [os.path.join(VERIF, "harness", name + ".c")] + objs +
           ["-o", out, "-lxml2", "-lutil"])
    if r.returncode:
        raise CheckError("driver %s: %s" % (name, r.stderr.decode(errors="replace")[-2000:]))
    return out


ASAN_ENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:handle_segv=1"}


def run_driver(binary, script, timeout=60, args=(), cwd=None):
    """Runs a driver on a script (bytes). Returns (events, status, tail of stderr)."""
    env = dict(os.environ, LC_ALL="C", TERM="dumb", **ASAN_ENV)
    try:
        r = sh([binary] + list(args), input=script, timeout=timeout, env=env, cwd=cwd)
        rc, out, err = r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired as e:
        rc, out, err = -999, e.stdout or b"", e.stderr or b""
    ev = []
    for l in out.split(b"\n"):
        l = l.strip()
        if not l.startswith(b"{"):
            continue
        try:
            ev.append(json.loads(l.decode("latin-1")))
        except ValueError:
            break
    return ev, rc, err.decode(errors="replace")[-3000:]


def pmap(fn, items, n=NCPU):
    with concurrent.futures.ThreadPoolExecutor(n) as ex:
        return list(ex.map(fn, items))


# ---------------------------------------------------------------- TLC
class TLCResult:
    def __init__(self):
        self.ok = False; self.error = ""; self.states = 0; self.distinct = 0
        self.depth = 0; self.out = ""; self.violated = None


def tlc(work, module, cfg_text, tag, extra_files=(), workers=1, timeout=800, heap="2g",
        args=(), deadlock=False):
    """Runs TLC on spec/<module>.tla with a generated cfg in its own directory."""
    d = work.path("tlc-" + tag)
    os.makedirs(d, exist_ok=True)
    for f in os.listdir(os.path.join(VERIF, "spec")):
        if f.endswith(".tla"):
            shutil.copy2(os.path.join(VERIF, "spec", f), d)
    for name, data in extra_files:
        with open(os.path.join(d, name), "w") as f:
            f.write(data)
    with open(os.path.join(d, module + ".cfg"), "w") as f:
        f.write(cfg_text)
    cmd = ["java", "-Djava.io.tmpdir=" + d, "-Xmx" + heap, "-Xss512m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2",
           "-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-metadir", os.path.join(d, "meta"),
           "-noGenerateSpecTE", "-config", module + ".cfg"]
    if not deadlock:
        cmd.append("-deadlock")
    cmd += list(args) + [module + ".tla"]
    t = TLCResult()
    try:
        r = sh(cmd, cwd=d, timeout=timeout)
    except subprocess.TimeoutExpired as e:
        t.error = "timeout"
        t.out = (e.stdout or b"").decode(errors="replace")
        return t
    t.out = r.stdout.decode(errors="replace")
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", t.out)
    if m:
        t.states, t.distinct = int(m[-1][0]), int(m[-1][1])
    m = re.search(r"depth of the complete state graph search is (\d+)", t.out)
    if m:
        t.depth = int(m.group(1))
    t.ok = r.returncode == 0 and "Error:" not in t.out
    if not t.ok:
        e = t.out.find("Error:")
        t.error = t.out[e:e + 3000] if e >= 0 else (t.out[-1500:] + r.stderr.decode(errors="replace")[-500:])
        m = re.search(r"Invariant (\w+) is violated|property (\w+) is violated|Action property (\w+)", t.out)
        if m:
            t.violated = next(x for x in m.groups() if x)
    shutil.rmtree(os.path.join(d, "meta"), ignore_errors=True)
    return t


def codes(s):
    if isinstance(s, str):
        s = s.encode("latin-1")
    return list(s)


def uncodes(c):
    return bytes(x & 255 for x in c).decode("latin-1")
