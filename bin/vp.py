"""Shared machinery of the checks: build the driver from /repo, run TLC, run the driver, write evidence."""
import fcntl, hashlib, json, os, re, resource, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.join(os.path.dirname(VERIF), "repo") if os.path.isdir(os.path.join(os.path.dirname(VERIF), "repo")) else "/repo"
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    pass


class Violation(Exception):
    def __init__(self, what, record):
        Exception.__init__(self, what)
        self.what, self.record = what, record


def log(*a):
    print(*a, flush=True)


def source_hash():
    h = hashlib.sha256()
    roots = [os.path.join(REPO, "src"), os.path.join(VERIF, "harness", "src")]
    files = [os.path.join(REPO, "Cargo.toml"), os.path.join(VERIF, "harness", "Cargo.toml")]
    for root in roots:
        for d, dirs, fs in os.walk(root):
            dirs.sort()
            files += [os.path.join(d, f) for f in sorted(fs)]
    for f in files:
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()


PROFILES = ("release", "wrapping")      # with overflow checks, and as released libraries are built


def build_driver():
    """Builds the driver against /repo's working tree in both profiles.  Contents decide, not file times."""
    os.makedirs(BUILD, exist_ok=True)
    target = os.path.join(BUILD, "target")
    binaries = [os.path.join(target, p, "la-driver") for p in PROFILES]
    stamp = os.path.join(BUILD, "stamp")
    manifest = os.path.join(VERIF, "harness", "Cargo.toml")
    env = dict(os.environ, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE="true")
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        h = source_hash()
        old = open(stamp).read() if os.path.exists(stamp) else ""
        if old != h or not all(os.path.exists(b) for b in binaries):
            if os.path.exists(stamp):
                os.unlink(stamp)
            for p in PROFILES:
                if os.path.isdir(os.path.join(target, p)):
                    subprocess.run(["cargo", "clean", "--profile", p, "--offline", "--manifest-path", manifest, "-p", "la", "-p", "la-driver"],
                                   env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            jobs = [subprocess.Popen(["cargo", "build", "--profile", p, "--offline", "--manifest-path", manifest],
                                     env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True) for p in PROFILES]
            outs = [j.communicate()[0] for j in jobs]
            for j, out in zip(jobs, outs):
                if j.returncode != 0:
                    raise ToolError("the driver does not build:\n" + out[-4000:])
            with open(stamp, "w") as f:
                f.write(h)
    return binaries


TLC_STATS = re.compile(r"(\d+) states generated, (\d+) distinct states found")


def tlc(module, cfg, rundir, env=None, timeout=600, workers=None, opts=(), heap="12g"):
    """Runs TLC; returns (status, transitions, states, output); status is 'ok' or 'violated'."""
    meta = os.path.join(rundir, "meta-" + os.path.basename(cfg))
    shutil.rmtree(meta, ignore_errors=True)
    os.makedirs(meta)
    cmd = ["java", "-Xss64m", "-Xmx" + heap, "-XX:+UseParallelGC", "-XX:ParallelGCThreads=4", "-Djava.io.tmpdir=" + meta, "-cp", JARS, "tlc2.TLC",
           "-noGenerateSpecTE", "-metadir", meta, "-workers", str(workers or os.cpu_count() or 4), "-config", cfg] + list(opts) + \
          [os.path.join(SPEC, module + ".tla")]
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, env=e, cwd=rundir, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors="replace")
    except subprocess.TimeoutExpired:
        raise ToolError("TLC ran out of time on %s %s" % (module, os.path.basename(cfg)))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = p.stdout
    m = TLC_STATS.findall(out)
    gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    if "Model checking completed. No error has been found" in out and p.returncode == 0:
        return "ok", gen, dist, out
    if re.search(r"Error: (Invariant|Action property|Temporal properties|Postcondition|Evaluating|.*is violated)", out) and ("is violated" in out or "were violated" in out):
        return "violated", gen, dist, out
    raise ToolError("TLC failed on %s %s:\n%s" % (module, os.path.basename(cfg), out[-6000:]))


def _limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def driver(binary, args, rundir, limit=20, timeout=600, env=None):
    """Runs the driver; returns its output.  A death or a call that never returns is a Violation."""
    crumb = os.path.join(rundir, "crumb-" + os.path.basename(os.path.dirname(binary)))
    if os.path.exists(crumb):
        os.unlink(crumb)
    e = dict(os.environ, VP_CRUMB=crumb, VP_LIMIT=str(limit), RUST_BACKTRACE="0")
    e.update(env or {})
    try:
        p = subprocess.run([binary] + args, env=e, cwd=rundir, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout,
                           errors="replace", preexec_fn=_limits)
    except subprocess.TimeoutExpired:
        raise ToolError("the driver ran out of time: " + " ".join(args))
    if p.returncode in (0, 1):
        return p.returncode, p.stdout
    last = ""
    if os.path.exists(crumb):
        b = open(crumb, "rb").read()
        if len(b) > 8:
            n = int.from_bytes(b[:8], "little")
            last = b[8:8 + n].decode("utf-8", "replace")
    if p.returncode == 3:
        raise Violation("a call does not return", {"case": last})
    if p.returncode < 0:
        raise Violation("the process died with signal %d during a call" % -p.returncode, {"case": last, "stderr": p.stderr[-2000:]})
    raise ToolError("the driver failed (%d): %s\n%s\n%s" % (p.returncode, " ".join(args), p.stdout[-2000:], p.stderr[-2000:]))


def read_ndjson(path, limit=None):
    r = []
    with open(path) as f:
        for i, line in enumerate(f):
            if limit is not None and i >= limit:
                break
            r.append(json.loads(line))
    return r
