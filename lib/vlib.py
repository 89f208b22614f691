"""Common machinery of the checks: build, run TLC, run scenarios, evidence."""
import contextlib
import fcntl
import hashlib
import json
import os
import pickle
import re
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, ".build")
JARS = (
    "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
)
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
NCPU = min(8, os.cpu_count() or 1)


def log(*a):
    print(*a, file=sys.stderr, flush=True)


_check = None


def die(msg):
    """machinery failure: neither 0 nor 1, unless violations were found before"""
    log(msg)
    if _check is not None and _check.viol:
        _check.finish()
    sys.exit(2)


def _uncaught(t, e, tb):
    """an exception that comes out of the library where none is expected is a violation"""
    import traceback

    traceback.print_exception(t, e, tb)
    if _check is None:
        os._exit(2)
    fs = traceback.extract_tb(tb)
    try:
        if any("/src/glum/" in f.filename for f in fs):
            _check.violation(f"the library raised {t.__name__}: {str(e)[:200]}", {"traceback": traceback.format_exception(t, e, tb)[-12:]})
        if _check.viol:
            _check.finish()
    except SystemExit:
        sys.stdout.flush()
        os._exit(1)
    os._exit(2)


def _late(*a):
    die("out of time")


# --------------------------------------------------------------------------- build
def build_java():
    src = sorted(
        os.path.join(VERIF, "java", "glm", f)
        for f in os.listdir(os.path.join(VERIF, "java", "glm"))
        if f.endswith(".java")
    )
    h = hashlib.sha256(b"".join(open(f, "rb").read() for f in src)).hexdigest()
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        stamp = os.path.join(BUILD, "stamp")
        if os.path.exists(stamp) and open(stamp).read() == h:
            return
        subprocess.run(
            ["javac", "-nowarn", "-cp", JARS, "-d", BUILD] + src,
            check=True,
            stdout=subprocess.DEVNULL,
        )
        with open(stamp, "w") as f:
            f.write(h)


def build_repo():
    os.makedirs(BUILD, exist_ok=True)
    if os.environ.get("VERIF_REPO"):
        return
    with open(os.path.join(BUILD, "repolock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        p = subprocess.run(
            ["bash", "/opt/vp/build.sh"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT
        )
    if p.returncode != 0:
        sys.stderr.write(p.stdout.decode(errors="replace")[-4000:])
        die("build of /repo failed")


def start():
    """build everything, then import the library once, before workers are forked"""
    build_java()
    build_repo()
    import glum  # noqa: F401


# --------------------------------------------------------------------------- TLC
class TLCResult:
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated, self.distinct = map(int, m[-1]) if m else (0, 0)
        self.fails = []
        # a printed value may span lines: normalise
        for mm in re.finditer(
            r"<<\s*\"@@FAIL\",\s*(\d+),\s*(.*?)\s*>>\s*(?=\n(?:<<|\S)|\Z)", out, re.S
        ):
            self.fails.append((int(mm.group(1)), re.sub(r"\s+", " ", mm.group(2))))

    @property
    def ok(self):
        return "Model checking completed. No error has been found." in self.out


def tlc(module, cfg, workdir=None, workers=NCPU, extra=(), timeout=850, files=None, heap="4g"):
    """Run TLC on spec/<module>.tla with the given cfg text; returns TLCResult."""
    own = workdir is None
    wd = workdir or tempfile.mkdtemp(prefix="tlc.", dir=scratch())
    for f in os.listdir(SPEC):
        if f.endswith(".tla") and not os.path.exists(os.path.join(wd, f)):
            os.symlink(os.path.join(SPEC, f), os.path.join(wd, f))
    for name, text in (files or {}).items():
        with open(os.path.join(wd, name), "w") as f:
            f.write(text)
    cfgp = os.path.join(wd, module + ".run.cfg")
    with open(cfgp, "w") as f:
        f.write(cfg)
    cmd = [
        "java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m",
        "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:glm.RealOverrides",
        "-cp", BUILD + ":" + JARS, "tlc2.TLC", "-deadlock", "-nowarning",
        "-workers", str(workers), "-metadir", os.path.join(wd, "states"),
        "-config", cfgp, *extra, module + ".tla",
    ]
    try:
        p = subprocess.run(
            cmd, cwd=wd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout
        )
        out, rc = p.stdout.decode(errors="replace"), p.returncode
        out = re.sub(r"(?m)^(Parsing file|Semantic processing|Linting of) .*\n", "", out)
    finally:
        if own and not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(wd, ignore_errors=True)
    return TLCResult(out, rc)


_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="glumverif.")
        import atexit

        pid = os.getpid()

        def _rm():
            if os.getpid() == pid and not os.environ.get("VERIF_KEEP"):
                shutil.rmtree(_scratch, ignore_errors=True)

        atexit.register(_rm)
    return _scratch


# --------------------------------------------------------------------------- encoding
def enc(o):
    """Python value -> trace value; floats become '#<repr>' (the exact double)."""
    import numpy as np

    if o is None:
        return None
    if isinstance(o, (bool, np.bool_)):
        return bool(o)
    if isinstance(o, (int, np.integer)):
        return int(o)
    if isinstance(o, np.float32):
        o = float(o)
    if isinstance(o, (float, np.floating)):
        return "#" + repr(float(o))
    if isinstance(o, str):
        return o
    if isinstance(o, np.ndarray):
        return [enc(x) for x in o.tolist()] if o.ndim else enc(o.item())
    if isinstance(o, (list, tuple)):
        return [enc(x) for x in o]
    if isinstance(o, dict):
        return {k: enc(v) for k, v in o.items()}
    raise TypeError(f"cannot encode {type(o)}: {o!r}")


def reals(a):
    """array -> nested list of reals even for integer arrays"""
    import numpy as np

    return np.asarray(a, dtype=float)


def write_trace(path, recs):
    with open(path, "w") as f:
        for r in recs:
            f.write(json.dumps(enc(r), separators=(",", ":")) + "\n")


# --------------------------------------------------------------------------- scenarios
def run_scenarios(fn, items, timeout=120, nproc=NCPU):
    """fn(item) -> record, in forked workers.  A scenario that crashes the process or
    exceeds the time limit, or whose exception escapes fn, yields {'crash': reason}."""
    items = list(items)
    res = [None] * len(items)
    if not items:
        return res
    os.environ.setdefault("OMP_NUM_THREADS", "1")
    nxt = [0]
    workers = {}

    def spawn():
        r1, w1 = os.pipe()  # parent -> child
        r2, w2 = os.pipe()  # child -> parent
        pid = os.fork()
        if pid == 0:
            try:
                os.close(w1)
                os.close(r2)
                for o in workers.values():
                    os.close(o["w"])
                    os.close(o["r"])
                devnull = os.open(os.devnull, os.O_WRONLY)
                os.dup2(devnull, 1)
                inp = os.fdopen(r1, "rb")
                outp = os.fdopen(w2, "wb")
                while True:
                    try:
                        i = pickle.load(inp)
                    except EOFError:
                        os._exit(0)
                    try:
                        v = ("ok", fn(items[i]))
                    except BaseException:
                        tb = traceback.format_exc()
                        v = ("ok", {"crash": tb.strip().splitlines()[-1][:300], "tb": tb[-3000:]})
                    b = pickle.dumps((i, v))
                    outp.write(len(b).to_bytes(8, "little") + b)
                    outp.flush()
            finally:
                os._exit(1)
        os.close(r1)
        os.close(w2)
        return pid, {"pid": pid, "w": w1, "r": r2, "job": None, "t": 0, "buf": b""}

    def give(o):
        if nxt[0] < len(items):
            i = nxt[0]
            nxt[0] += 1
            o["job"], o["t"] = i, time.time()
            os.write(o["w"], pickle.dumps(i))
            return True
        o["job"] = None
        return False

    def kill(o):
        with contextlib.suppress(ProcessLookupError):
            os.kill(o["pid"], signal.SIGKILL)
        os.waitpid(o["pid"], 0)
        os.close(o["w"])
        os.close(o["r"])
        del workers[o["pid"]]

    for _ in range(min(nproc, len(items))):
        pid, o = spawn()
        workers[pid] = o
        give(o)
    while workers:
        fds = {o["r"]: o for o in workers.values() if o["job"] is not None}
        if not fds:
            break
        rl, _, _ = select.select(list(fds), [], [], 1.0)
        for fd in rl:
            o = fds[fd]
            data = os.read(fd, 1 << 20)
            if not data:
                i = o["job"]
                kill(o)
                res[i] = {"crash": "the process died"}
                if nxt[0] < len(items):
                    pid, o = spawn()
                    workers[pid] = o
                    give(o)
                continue
            o["buf"] += data
            while len(o["buf"]) >= 8:
                n = int.from_bytes(o["buf"][:8], "little")
                if len(o["buf"]) < 8 + n:
                    break
                i, v = pickle.loads(o["buf"][8 : 8 + n])
                o["buf"] = o["buf"][8 + n :]
                res[i] = v[1]
                give(o)
        now = time.time()
        for o in list(workers.values()):
            if o["job"] is not None and now - o["t"] > timeout:
                res[o["job"]] = {"crash": f"no result after {timeout} s"}
                kill(o)
                if nxt[0] < len(items):
                    pid, o2 = spawn()
                    workers[pid] = o2
                    give(o2)
    for o in list(workers.values()):
        kill(o)
    return res


class Quiet:
    """Record warnings (category names) raised inside."""

    def __enter__(self):
        self._c = warnings.catch_warnings(record=True)
        self._l = self._c.__enter__()
        warnings.simplefilter("always")
        return self

    def __exit__(self, *a):
        self.names = [w.category.__name__ for w in self._l]
        self.messages = [str(w.message) for w in self._l]
        return self._c.__exit__(*a)


# --------------------------------------------------------------------------- check object
class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop, self.level = prop, level
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples, self.viol, self.notes, self.detail = [], [], [], {}
        self.exhaustive = []
        global _check
        _check = self
        sys.excepthook = _uncaught
        if TIER == "quick":
            import signal

            signal.signal(signal.SIGALRM, _late)
            signal.alarm(860)
        self.known = load_known(prop)
        self.hit_known = {}
        with contextlib.suppress(FileNotFoundError):
            os.remove(os.path.join(VERIF, "evidence", "replay", prop + ".json"))

    def model(self, module, cfg, name=None, expect_ok=True, **kw):
        """Exhaustive TLC run of a design model: an error is a machinery failure."""
        r = tlc(module, cfg, **kw)
        if expect_ok and not r.ok:
            sys.stderr.write(r.out[-6000:])
            die(f"TLC failed on model {module}")
        self.states += r.distinct
        self.transitions += r.generated
        self.detail.setdefault("models", {})[name or module] = {
            "distinct_states": r.distinct, "transitions": r.generated}
        return r

    def generate(self, module, cfg, name=None, **kw):
        """Behaviours printed by a model (lines "@@B <json>"), in a fixed order."""
        r = self.model(module, cfg, name=name, **kw)
        out = set()
        for m in re.finditer(r'^"@@B (.*)"$', r.out, re.M):
            out.add(m.group(1).replace('\\"', '"'))
        if not out:
            die(f"{module} generated no behaviour")
        self.detail["models"][name or module]["behaviours"] = len(out)
        return [json.loads(b) for b in sorted(out)]

    def trace(self, module, recs, verdict, consts="", label=None, workers=NCPU, timeout=850):
        """Validate records (list of dict) with TLC; returns [(index, clauses)]"""
        if not recs:
            die("empty trace")
        keep, bad = list(range(len(recs))), []
        while True:
            r, i = self._trace([recs[k] for k in keep], module, verdict, consts, workers, timeout)
            if i is None:
                break
            # TLC cannot evaluate the specification on this line: not a behaviour of it
            log("no behaviour of", module, json.dumps(enc(recs[keep[i]]))[:1500])
            bad.append((keep[i], "no behaviour of the specification"))
            del keep[i]
            if len(bad) >= 8 or not keep:
                return bad
        self.states += r.distinct
        self.transitions += r.generated
        self.traces += len(keep)
        d = self.detail.setdefault("traces", {}).setdefault(label or module, {"lines": 0, "failing": 0})
        d["lines"] += len(keep)
        d["failing"] += len(r.fails) + len(bad)
        return bad + [(keep[i - 1], c) for i, c in r.fails]

    def _trace(self, recs, module, verdict, consts, workers, timeout):
        wd = tempfile.mkdtemp(prefix="trace.", dir=scratch())
        write_trace(os.path.join(wd, "trace.ndjson"), recs)
        nblk = max(1, min(workers * 4, len(recs)))
        cfg = (
            "SPECIFICATION TraceSpec\nINVARIANT Judged\nCONSTANTS\n"
            f'  File = "trace.ndjson"\n  NBlk = {nblk}\n  Verdict <- {verdict}\n{consts}\n'
        )
        r = tlc(module, cfg, workdir=wd, workers=workers, timeout=timeout)
        want = len(recs) + nblk + 1
        if not r.ok or r.distinct != want:
            if os.environ.get("VERIF_KEEP"):
                log("kept", wd)
            m = re.search(r"l = (\d+)", r.out[r.out.rfind("\nState"):] if "\nState" in r.out else "")
            sys.stderr.write(r.out[-5000:])
            if m and 1 <= int(m.group(1)) <= len(recs) and "behavior up to this point" in r.out and "OutOfMemory" not in r.out:
                shutil.rmtree(wd, ignore_errors=True)
                return r, int(m.group(1)) - 1
            die(f"TLC failed on trace of {module} ({r.distinct} of {want} states)")
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(wd, ignore_errors=True)
        return r, None

    def rounds(self, fn, budget=600, quick_rounds=1):
        """quick: a fixed number of rounds; thorough: fresh rounds until the budget is used"""
        import numpy as np

        k, longest = 0, 0.0
        while True:
            t = time.time()
            fn(np.random.default_rng([SEED, int(self.prop[1:]), k]))
            longest = max(longest, time.time() - t)
            k += 1
            if len(self.viol) > 50:
                break
            if TIER == "thorough":
                if time.time() - self.t0 + 1.3 * longest > budget:
                    break
            elif k >= quick_rounds:
                break
        self.detail["rounds"] = k

    def count(self, key, n=1):
        d = self.detail.setdefault("counts", {})
        d[key] = d.get(key, 0) + int(n)

    def violation(self, what, replay):
        """what: one-line description; replay: JSON-able scenario"""
        for k in self.known:
            if k["_re"].search(what):
                self.hit_known.setdefault(k["id"], []).append(what)
                return
        self.viol.append((what, replay))

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s if isinstance(s, (dict, list, str)) else repr(s))

    def finish(self):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cov = {
            "states": self.states, "transitions": self.transitions,
            "traces_validated_against_impl": self.traces,
            "samples": [json.loads(json.dumps(enc(s), default=str)) if not isinstance(s, str) else s
                        for s in self.samples] or ["none"],
        }
        cov.update(self.detail)
        ev = {
            "property": self.prop, "tier": TIER if TIER in ("quick", "thorough") else "quick",
            "seed": SEED, "level": self.level, "coverage": cov,
            "assumptions": self.notes, "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.viol),
        }
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.known:
            if k["id"] in self.hit_known:
                print(f"KNOWN-FINDING: property={self.prop} {k['what']}")
        if self.viol:
            rd = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(rd, exist_ok=True)
            p = os.path.join(rd, self.prop + ".json")
            with open(p, "w") as f:
                json.dump([{"what": w, "replay": enc_safe(r)} for w, r in self.viol[:int(os.environ.get("VERIF_REPLAYS", "20"))]], f, indent=1)
            for w, _ in self.viol[:8]:
                print("  -", w[:400])
            print(f"  {len(self.viol)} violation(s)")
            print(f"VIOLATION property={self.prop} replay={os.path.relpath(p, VERIF)}", flush=True)
            sys.exit(1)
        print(
            f"{self.prop}: held; {self.states} states, {self.traces} trace lines, "
            f"{time.time() - self.t0:.1f} s", flush=True)
        sys.exit(0)


def enc_safe(o):
    try:
        return enc(o)
    except TypeError:
        return repr(o)


def load_known(prop):
    p = os.path.join(VERIF, "known_findings.json")
    out = []
    if os.path.exists(p):
        for k in json.load(open(p)).get("findings", []):
            if k["property"] == prop and k.get("status") == "known":
                k = dict(k)
                k["_re"] = re.compile(k["match"])
                out.append(k)
    return out
