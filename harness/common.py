"""Shared machinery: running TLC, encoding values, evidence, verdicts. No property is judged in Python."""
import ast, json, os, re, shutil, subprocess, sys, tempfile, time, threading
from concurrent.futures import ThreadPoolExecutor
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
REPO = os.environ.get("RICHARD_REPO", "/repo")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = min(8, os.cpu_count() or 4)


class MachineryError(Exception):
    pass


# ---------------------------------------------------------------- TLC

def run_tlc(module, cfg=None, env=None, timeout=600, heap="3g", args=(), workers="1"):
    """Runs TLC on spec/<module>.tla; returns (exit code, output)."""
    meta = tempfile.mkdtemp(prefix="tlc_")
    try:
        cmd = ["java", "-XX:+UseSerialGC" if workers == "1" else "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss256m",
               "-XX:TieredStopAtLevel=4", "-cp", JARS, "tlc2.TLC", "-metadir", meta, "-noGenerateSpecTE",
               "-workers", workers, "-config", (cfg or module) + ".cfg", *args, module + ".tla"]
        e = dict(os.environ); e.update(env or {}); e.pop("JAVA_TOOL_OPTIONS", None)
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout)
        return p.returncode, p.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as ex:
        return -1, "TIMEOUT " + (ex.stdout or b"").decode("utf-8", "replace")[-2000:]
    finally:
        shutil.rmtree(meta, ignore_errors=True)


RE_STATES = re.compile(r"(\d+) states generated, (\d+) distinct states found")


def tlc_stats(out):
    m = RE_STATES.findall(out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def tlc_prints(out, tag):
    """The JSON values printed by the spec as strings starting with <tag>."""
    res = []
    for line in out.splitlines():
        if line.startswith('"' + tag):
            res.append(json.loads(_untla(line)[len(tag):]))
    return res


def _untla(line):
    # a TLA+ string as printed by TLC: \" \\ \n \t escapes
    body = line.strip()[1:-1]
    o = []; i = 0
    while i < len(body):
        c = body[i]
        if c == "\\" and i + 1 < len(body):
            n = body[i + 1]
            o.append({"n": "\n", "t": "\t", "r": "\r", "f": "\f"}.get(n, n)); i += 2
        else:
            o.append(c); i += 1
    return "".join(o)


# ---------------------------------------------------------------- values

def enc(v):
    """Python value -> term (see spec/Util.tla). Works with or without richard imported."""
    t = type(v).__name__
    if v is None:
        return {"k": "n"}
    if isinstance(v, bool):
        return {"k": "o", "o": repr(v)}
    if isinstance(v, str):
        return {"k": "s", "s": v}
    if isinstance(v, int):
        return {"k": "i", "i": v} if abs(v) < 2**31 else {"k": "o", "o": repr(v)}
    if isinstance(v, float):
        if v != v or v in (float("inf"), float("-inf")):
            return {"k": "o", "o": repr(v)}
        f = Fraction(v).limit_denominator(1000)
        if abs(float(f) - v) <= 1e-9 * max(1.0, abs(v)) and abs(f.numerator) < 2**31:
            if f.denominator == 1: return {"k": "i", "i": f.numerator}  # 2.0 equals 2
            return {"k": "q", "n": f.numerator, "d": f.denominator}
        f = Fraction(v).limit_denominator(10000)
        if abs(float(f) - v) <= 1e-12 * max(1e-4, abs(v)) and abs(f.numerator) < 2**17: return {"k": "q", "n": f.numerator, "d": f.denominator}
        return {"k": "o", "o": repr(v)}
    if t == "Variable":
        return {"k": "v", "n": v.name}
    if t == "ReifiedVariable":
        return {"k": "rv", "n": v.name}
    if t == "LateRule":
        return {"k": "g", "i": v.i}
    if isinstance(v, list):
        return {"k": "l", "l": [enc(x) for x in v]}
    if isinstance(v, tuple):
        return {"k": "t", "t": [enc(x) for x in v]}
    return {"k": "o", "o": "?" + re.sub(r"0x[0-9a-f]+", "0x", repr(v))[:200]}


def dec(t):
    """term -> Python value; needs richard importable for variables."""
    k = t["k"]
    if k == "n": return None
    if k == "s": return t["s"]
    if k == "i": return t["i"]
    if k == "q": return t["n"] / t["d"]
    if k == "o": return ast.literal_eval(t["o"])
    if k == "v":
        from richard.entity.Variable import Variable
        return Variable(t["n"])
    if k == "rv":
        from richard.entity.ReifiedVariable import ReifiedVariable
        return ReifiedVariable(t["n"])
    if k == "l": return [dec(x) for x in t["l"]]
    if k == "t": return tuple(dec(x) for x in t["t"])
    raise ValueError(t)


def V(n): return {"k": "v", "n": n}
def RV(n): return {"k": "rv", "n": n}
def L(*xs): return {"k": "l", "l": list(xs)}
def T(*xs): return {"k": "t", "t": [x if isinstance(x, dict) else enc(x) for x in xs]}
def A(pred, *args): return T(pred, *args)


def codes(s):
    return [ord(c) for c in s]


def uncodes(cs):
    return "".join(chr(c) for c in cs)


# ---------------------------------------------------------------- running cases in the real code

def worker_python():
    for p in ("/opt/venv/bin/python", "/usr/bin/python3"):
        if os.path.exists(p):
            return p
    return sys.executable


def run_cases(prop, cases, timeout_total=500, nproc=NPROC):
    """Runs the cases of a property against /repo in worker processes. Returns list of event lists."""
    tmp = tempfile.mkdtemp(prefix="vf_")
    n = max(1, min(nproc, len(cases)))
    try:
        jobs = []
        for w in range(n):
            part = [(i, c) for i, c in enumerate(cases) if i % n == w]
            fin = os.path.join(tmp, f"in{w}.jsonl"); fout = os.path.join(tmp, f"out{w}.jsonl")
            with open(fin, "w") as f:
                for i, c in part:
                    f.write(json.dumps([i, c]) + "\n")
            env = dict(os.environ)
            env.update(PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX="/nonexistent/pycache",
                       PYTHONHASHSEED=str(w), VERIF_SCRATCH=os.path.join(tmp, f"scratch{w}"), LC_ALL="C.UTF-8")
            os.makedirs(env["VERIF_SCRATCH"])
            log = open(os.path.join(tmp, f"log{w}"), "wb")
            p = subprocess.Popen([worker_python(), "-W", "ignore", os.path.join(VERIF, "harness", "worker.py"),
                                  prop, fin, fout], cwd=env["VERIF_SCRATCH"], env=env, stdout=log,
                                 stderr=subprocess.STDOUT, start_new_session=True)
            jobs.append((p, part, fout, log, w))
        res = [None] * len(cases)
        deadline = time.time() + timeout_total
        for p, part, fout, log, w in jobs:
            try:
                p.wait(max(1, deadline - time.time()))
            except subprocess.TimeoutExpired:
                pass
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
            p.wait()
            log.close()
            if os.path.exists(fout):
                with open(fout) as f:
                    for line in f:
                        try:
                            i, ev = json.loads(line)
                        except ValueError:
                            continue
                        res[i] = ev
            if p.returncode not in (0, -9) and all(res[i] is None for i, _ in part):
                with open(os.path.join(tmp, f"log{w}"), "rb") as f:
                    raise MachineryError("worker failed: " + f.read().decode("utf-8", "replace")[-1500:])
        return res
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


# ---------------------------------------------------------------- trace validation

def validate(trace_module, cases_events, timeout=500, nshards=NPROC, cfg=None):
    """Validates the event lists against spec/<trace_module>.tla. Returns dict with mismatches and counts."""
    idx = [i for i, ev in enumerate(cases_events) if ev is not None]
    weight = lambda i: len(json.dumps(cases_events[i]))
    n = max(1, min(nshards, len(idx)))
    shards = [[] for _ in range(n)]; loads = [0] * n
    for i in sorted(idx, key=lambda i: -weight(i)):
        k = loads.index(min(loads)); shards[k].append(i); loads[k] += weight(i)
    tmp = tempfile.mkdtemp(prefix="vt_")
    try:
        files = []
        for k, sh in enumerate(shards):
            fn = os.path.join(tmp, f"t{k}.ndjson"); cnt = 0
            with open(fn, "w") as f:
                for i in sorted(sh):
                    for j, ev in enumerate(cases_events[i]):
                        d = dict(ev); d["c"] = i; d["i"] = j
                        f.write(json.dumps(d) + "\n"); cnt += 1
            files.append((fn, cnt))

        def one(fc):
            fn, cnt = fc
            if cnt == 0:
                return 0, "", 0
            code, out = run_tlc(trace_module, cfg=cfg, env={"TRACE": fn}, timeout=timeout)
            return code, out, cnt
        with ThreadPoolExecutor(n) as ex:
            outs = list(ex.map(one, files))
        mism = []; states = trans = events = 0; stats = []
        for code, out, cnt in outs:
            if cnt == 0:
                continue
            g, d = tlc_stats(out)
            if code != 0 or d != cnt + 1:
                raise MachineryError(f"trace validation with {trace_module} failed (code {code}, {d} states for {cnt} events):\n"
                                     + out[-9500:])
            states += d; trans += g - 1; events += cnt
            mism += tlc_prints(out, "@@M ")
            stats += tlc_prints(out, "@@S ")
        return dict(mismatches=mism, states=states, transitions=trans, events=events, traces=len(idx), stats=stats)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def model_check(module, cfg=None, timeout=600, workers="4", heap="6g", args=()):
    """Exhaustive TLC run of a specification; returns stats and behaviours printed by it."""
    code, out = run_tlc(module, cfg=cfg, timeout=timeout, workers=workers, heap=heap, args=args)
    if code != 0 or "No error has been found" not in out:
        raise MachineryError(f"model checking {module}/{cfg} failed ({code}):\n" + out[-4000:])
    g, d = tlc_stats(out)
    return dict(module=cfg or module, states=d, transitions=g, behaviours=tlc_prints(out, "@@B "))
