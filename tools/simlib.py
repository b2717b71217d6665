"""Building and running the simulator (shared by check.py and the tools)."""
import json, os, re, resource, shutil, subprocess, sys, tempfile, time, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
RUN_TIMEOUT = 60
MEM = 3 << 30


class HarnessError(Exception):
    pass


def goenv():
    env = {k: v for k, v in os.environ.items() if not k.startswith(("GODEBUG", "GOEXPERIMENT", "GOMAXPROCS", "GOTRACEBACK", "NEUTRINO"))}
    env.setdefault("HOME", "/root")
    f = "/opt/vp/env.sh"
    if os.path.exists(f):
        out = subprocess.run(["bash", "-c", ". %s >/dev/null 2>&1; env -0" % f], capture_output=True, env=env).stdout
        for kv in out.decode(errors="replace").split("\0"):
            if "=" in kv:
                k, v = kv.split("=", 1)
                env[k] = v
    env["CGO_ENABLED"] = "0"
    env["GOFLAGS"] = "-mod=mod"
    env["GOPROXY"] = "off"
    env["GOTOOLCHAIN"] = "local"
    env["GOWORK"] = "off"
    return env


def build(work, repo=None, cache=None, info=None):
    """Builds the simulator from the repository's working tree; returns its path."""
    repo = repo or REPO
    info = {} if info is None else info
    env = goenv()
    env["GOCACHE"] = cache or os.path.join(work, "gocache")
    goroot = subprocess.run(["go", "env", "GOROOT"], capture_output=True, text=True, env=env, cwd=repo).stdout.strip()
    instr = os.path.join(work, "instr")
    tool = subprocess.Popen(["go", "build", "-trimpath", "-o", instr, "main.go"], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, env=env, cwd=os.path.join(VERIF, "sim/instr"))
    # -mod=mod may rewrite go.mod/go.sum: work on copies
    for n in ("go.mod", "go.sum"):
        shutil.copy(os.path.join(repo, n), os.path.join(work, n))
    exe = os.path.join(work, "sim")

    def sim(*extra):
        ovl = os.path.join(work, "ovl%d" % len(extra))
        r = subprocess.run([sys.executable, os.path.join(VERIF, "sim/goroot/mkoverlay.py"), goroot, ovl, repo, VERIF] + list(extra), capture_output=True, text=True)
        if r.returncode:
            return "overlay: " + r.stderr, 0
        r = subprocess.run(["go", "build", "-trimpath", "-modfile", os.path.join(work, "go.mod"), "-tags", "faketime", "-overlay", os.path.join(ovl, "overlay.json"), "-o", exe, "./cmd/neutrinod"],
                           capture_output=True, text=True, env=env, cwd=repo)
        if r.returncode:
            return "build failed:\n" + r.stderr[-6000:], 0
        n = 0
        if os.path.exists(os.path.join(ovl, "sites")):
            n = int(open(os.path.join(ovl, "sites")).read())
        return None, n
    err = tool.communicate()[1]
    if tool.returncode == 0:
        err, info["points"] = sim(instr)
    if err:
        print("without points between the statements: " + err[:1500], flush=True)
        err, info["points"] = sim()
    if err:
        raise HarnessError(err)
    return exe


def _limits():
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


FRAME = re.compile(r"^([\w./\-@*()\[\]·]+)\(.*\)$")


def crash_of(stderr):
    """(kind, signature, harness?) of a Go crash."""
    m = re.search(r"^(panic: .*|fatal error: .*|runtime: goroutine stack exceeds.*|SIG\w+: .*)$", stderr, re.M)
    head = m.group(1) if m else stderr.strip()[-300:]
    body = stderr[m.end():] if m else ""
    # the goroutine that crashed comes first
    frames = []
    for part in body.split("\n\n"):
        if part.lstrip().startswith("goroutine ") and ("running" in part.split("\n", 1)[0] or "goroutine 0" not in part):
            for line in part.split("\n")[1:]:
                if line.startswith("\t") or not line:
                    continue
                name = line.split("(0x")[0].split("({")[0].split("(...")[0]
                frames.append(name)
            break
    mine = [f for f in frames if "vulpemventures/neutrino-elements" in f and not f.startswith("created by")]
    harness = bool(mine) and "internal/verifsim" in mine[0]
    site = mine[0].replace("github.com/vulpemventures/neutrino-elements/", "") if mine else (frames[0] if frames else "?")
    head = re.sub(r"0x[0-9a-f]+", "0x", head)
    head = re.sub(r"\[recovered.*?\]", "", head)
    return head[:160], site, harness


def run(exe, args, timeout=RUN_TIMEOUT):
    """Runs one simulation.  Returns a dict with viol, result, crash, hang, err."""
    env = {"GOGC": "off", "PATH": "/usr/bin:/bin", "HOME": "/nonexistent", "SIMREPO": REPO}
    t0 = time.time()
    try:
        p = subprocess.Popen([exe] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, preexec_fn=_limits, cwd="/")
        out, err = p.communicate(timeout=timeout)
        rc, hang = p.returncode, False
    except subprocess.TimeoutExpired:
        p.kill()
        out, err = p.communicate()
        rc, hang = None, True
    scratch = "/tmp/verifcli-%010d" % p.pid  # left behind if the run crashed
    if os.path.isdir(scratch):
        shutil.rmtree(scratch, ignore_errors=True)
    out, err = out.decode(errors="replace"), err.decode(errors="replace")
    res = {"viol": [], "result": None, "crash": None, "hang": hang, "err": None, "wall": time.time() - t0}
    for line in out.split("\n"):
        if line.startswith("V "):
            try:
                res["viol"].append(json.loads(line[2:]))
            except ValueError:
                pass
        elif line.startswith("R "):
            try:
                res["result"] = json.loads(line[2:])
            except ValueError:
                pass
    if rc == 97:
        res["hang"] = True
    elif res["result"] is not None:
        if res["result"].get("err"):
            res["err"] = res["result"]["err"]
    elif hang:
        res["err"] = None
    elif rc == 3 or rc is None or rc == 0:
        res["err"] = "no result (exit %s): %s" % (rc, err[-400:])
    else:
        head, site, harness = crash_of(err)
        res["stderr"] = err[:20000]
        if harness and "out of memory" not in head:
            res["err"] = "harness crash: %s at %s" % (head, site)
        elif rc < 0 and not head:
            res["err"] = "killed by signal %d" % -rc
        else:
            res["crash"] = {"head": head, "site": site}
    return res


def tmpdir(prefix):
    return tempfile.mkdtemp(prefix=prefix, dir=os.environ.get("TMPDIR", "/tmp"))
