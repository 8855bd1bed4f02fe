"""C20: the query result cache, with interleaved and dying processes."""
import json, os, resource, select, shutil, signal, sys, tempfile
from common import enc, dec
from props.data import IRIS, TEXTS, node

# ------------------------------------------------------------------ processes that can be stopped at any point

FILE_EVENTS = {"open", "os.rename", "os.remove", "os.link", "os.symlink", "os.mkdir", "os.rmdir", "os.truncate", "os.chmod", "os.utime", "fcntl.flock", "fcntl.lockf"}


class Proc:
    """A process that performs selections; it can be told to stop at the n-th file operation or request."""
    def __init__(self, sources, graphs):
        a, self.w = os.pipe()
        self.r, b = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(self.w); os.close(self.r)
                child(a, b, sources, graphs)
            finally:
                os._exit(0)
        os.close(a); os.close(b)
        self.buf = b""

    def tell(self, msg): os.write(self.w, json.dumps(msg).encode() + b"\n")

    def hear(self):
        """the next message; None: it died"""
        while b"\n" not in self.buf:
            if not select.select([self.r], [], [], 8)[0]: raise Exception("a process does not answer")
            x = os.read(self.r, 1 << 16)
            if not x: return None
            self.buf += x
        line, self.buf = self.buf.split(b"\n", 1)
        return json.loads(line)

    def ask(self, msg):
        self.tell(msg)
        return self.hear()

    def end(self):
        try: os.kill(self.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        os.waitpid(self.pid, 0)
        os.close(self.r); os.close(self.w)


def child(inp, outp, sources, graphs):
    import builtins
    signal.setitimer(signal.ITIMER_REAL, 0)
    signal.signal(signal.SIGALRM, signal.SIG_DFL)
    signal.alarm(30)
    import requests, pickle, hashlib
    from richard.data_source.SparqlDataSource import SparqlDataSource
    from standins import Sparql, Response, Bad
    state = {"gate": 0, "busy": False, "sent": 0, "fail": 0}
    dirs = [s["dir"] for s in sources if s["dir"]]
    buf = [b""]

    def read():
        while b"\n" not in buf[0]:
            x = os.read(inp, 1 << 16)
            if not x: os._exit(0)
            buf[0] += x
        line, buf[0] = buf[0].split(b"\n", 1)
        return json.loads(line)

    def tell(msg): os.write(outp, json.dumps(msg).encode() + b"\n")

    def point():
        if not state["busy"] or not state["gate"]: return
        state["gate"] -= 1
        if state["gate"] == 0:
            state["busy"] = False
            tell({"paused": True})
            state["gate"] = read()["k"]
            state["busy"] = True

    def hook(event, args):
        if event in FILE_EVENTS and any(isinstance(x, (str, bytes)) and any(os.fsdecode(x).startswith(d) for d in dirs) for x in args): point()
    sys.addaudithook(hook)

    class Slow:
        """a file that is written in two steps"""
        def __init__(self, f): self.__dict__["f"] = f
        def __getattr__(self, n): return getattr(self.f, n)
        def __enter__(self): self.f.__enter__(); return self
        def __exit__(self, *a): return self.f.__exit__(*a)
        def __iter__(self): return iter(self.f)
        def write(self, data):
            n = len(data) // 2
            self.f.write(data[:n]); self.f.flush(); point()
            self.f.write(data[n:]); self.f.flush(); point()
            return len(data)
    opened = builtins.open

    def slow_open(file, mode="r", *a, **kw):
        f = opened(file, mode, *a, **kw)
        if state["busy"] and any(c in mode for c in "wax+") and isinstance(file, (str, os.PathLike)) and any(str(file).startswith(d) for d in dirs): return Slow(f)
        return f
    builtins.open = slow_open
    engines = {u: Sparql([(tuple(a), tuple(b), tuple(c)) for a, b, c in ts]) for u, ts in graphs.items()}

    def request(self, method, url, params=None, data=None, headers=None, **kw):
        point()
        state["sent"] += 1
        if state["fail"] == -1: raise requests.exceptions.ConnectionError("no network")
        if state["fail"]: return Response(state["fail"], "refused")
        try: r = Response(200, engines[url].query((params or data or {}).get("query", "")))
        except Bad as e: r = Response(400, str(e))
        point()
        return r
    requests.sessions.Session.request = request
    ds = {s["name"]: SparqlDataSource(s["url"], result_cache_path=s["dir"], lang=s["lang"]) for s in sources}
    while True:
        m = read()
        if m.get("limit") is not None:
            signal.signal(signal.SIGXFSZ, signal.SIG_DFL if m["die"] else signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (m["limit"], resource.getrlimit(resource.RLIMIT_FSIZE)[1]))
        state.update(gate=m.get("k", 0), busy=True, sent=0, fail=m.get("fail", 0))
        try:
            rows = ds[m["src"]].select(m["t"], list(m["types"]), [dec(x) for x in m["vals"]])
            out = {"e": False, "r": [[enc(x) for x in row] for row in rows]}
        except Exception as e:
            out = {"e": True, "r": [], "why": repr(e)[:200]}
        state["busy"] = False
        if m.get("limit") is not None: resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
        tell({"paused": False, "out": out, "sent": state["sent"]})


def run(case):
    import requests
    import richard.data_source.SparqlDataSource
    base = tempfile.mkdtemp(prefix="cache_", dir=os.environ["VERIF_SCRATCH"])
    procs, paused = {}, {}
    try:
        sources = [dict(s, dir=os.path.join(base, s["dir"]) if s["dir"] else None) for s in case["sources"]]
        for s in sources:
            if s["dir"] and not s.get("missing"): os.makedirs(s["dir"], exist_ok=True)
        src = {s["name"]: s for s in sources}
        typ = {t["name"]: t["types"] for t in case["tables"]}
        cols = lambda t: ["0" + typ[t][0], "1" + typ[t][1]]
        events = [{"op": "init", "cached": [s["name"] for s in sources if s["dir"] and not s.get("missing")]}]
        graphs = {}
        for s in sources:
            ts = graphs.setdefault(s["url"], [])
            for t in case["tables"]:
                rows = t["rows"].get(s["url"] + " " + s["lang"], [])
                events.append({"op": "fill", "t": s["name"] + " " + t["name"], "cols": cols(t["name"]), "rows": rows})
                for a, b in rows:
                    x = (node(t["types"][0], dec(a), s["lang"]), ("name", t["name"]), node(t["types"][1], dec(b), s["lang"]))
                    if x not in ts: ts.append(x)

        def proc(p):
            if p not in procs: procs[p] = Proc(sources, graphs)
            return procs[p]

        def gone(p):
            procs.pop(p).end(); paused.pop(p, None)

        def ended(ev, m):
            ev["paused"] = m["paused"]
            if not m["paused"]: ev["out"], ev["sent"] = m["out"], m["sent"]
            events.append(ev)
        for op in case["ops"]:
            p = op.get("p")
            if op["op"] in ("select", "begin", "full", "crash"):
                if p in paused: continue
                ev = {"op": op["op"], "p": p, "src": op["src"], "t": op["t"], "cols": cols(op["t"]), "vals": op["vals"], "fail": op.get("fail", 0)}
                msg = {"src": op["src"], "t": op["t"], "types": typ[op["t"]], "vals": op["vals"], "fail": op.get("fail", 0)}
                if op["op"] == "begin": msg["k"] = op["k"]
                if op["op"] in ("full", "crash"): msg["limit"], msg["die"] = op["n"], op["op"] == "crash"
                m = proc(p).ask(msg)
                if m is None:
                    if op["op"] != "crash": raise Exception("a process died")
                    ev["died"] = True; events.append(ev); gone(p)
                else:
                    if op["op"] == "crash": ev["died"] = False
                    ended(ev, m)
                    if m["paused"]: paused[p] = ev
            elif op["op"] == "step":
                if p not in paused: continue
                m = proc(p).ask({"k": op["k"]})
                if m is None: raise Exception("a process died")
                ended({"op": "step", "p": p, "fail": paused[p]["fail"]}, m)
                if not m["paused"]: paused.pop(p)
            elif op["op"] == "kill":
                if p in procs: gone(p)
                events.append({"op": "kill", "p": p})
            elif op["op"] == "damage":
                # files that are being written are left alone: what is written next would make them readable again, with other content
                try: used = {os.path.realpath(f"/proc/{x.pid}/fd/{n}") for x in procs.values() for n in os.listdir(f"/proc/{x.pid}/fd")}
                except OSError: continue
                for s in {s["dir"] for s in sources if s["dir"]}:
                    for d, _, fs in os.walk(s):
                        for f in fs:
                            if os.path.realpath(os.path.join(d, f)) in used: continue
                            damage(os.path.join(d, f), op["how"])
                events.append({"op": "damage", "how": op["how"]})
        for p in list(paused):
            m = proc(p).ask({"k": 0})
            ended({"op": "step", "p": p, "fail": paused[p]["fail"]}, m)
        return events
    finally:
        for x in procs.values(): x.end()
        shutil.rmtree(base, ignore_errors=True)


def damage(fn, how):
    with open(fn, "rb") as f: data = f.read()
    if how == "directory":
        os.unlink(fn); os.mkdir(fn); return
    data = {"empty": b"", "half": data[:len(data) // 2], "last": data[:-1], "zero": b"\0" * len(data), "garbage": b"\x80\x05garbage", "text": b"[[1, 2]]x<",
            "tail": data[len(data) // 2:], "module": b"cnosuch\nthing\n.", "name": b"cos\nnosuch\n.", "stack": b"0.", "protocol": b"\x80\xff.", "number": b"I1x\n.",
            "utf8": b"\x8c\x01\xff.", "long": b"\x8e\xff\xff\xff\xff\xff\xff\xff\x7f"}[how]
    with open(fn, "wb") as f: f.write(data)


def nontrivial(case, events): return any("out" in e for e in events)


HOWS = ["empty", "half", "last", "zero", "garbage", "text", "tail", "directory", "module", "name", "stack", "protocol", "number", "utf8", "long"]

# ------------------------------------------------------------------ generating

ODD = ["None", "1", "a", "b", "ab", "', '", "['a']", "None, None"]


def rand_tables(rng, sources, big=False):
    tables = []
    for n in rng.sample(["wdt:P19", "wdt:P1", "rdfs:label", "wdt:P190"], 2):
        types = [rng.choice(["id", "text"]), rng.choice(["id", "text", "text"])]
        long = rng.choice([20, 60, 130, 300]) * "x" if not big else "x"
        pool = {"id": rng.sample(IRIS, 3) + ["urn:a", "urn:" + long + "1", "urn:" + long + "2"], "text": rng.sample(TEXTS, 2) + rng.sample(ODD, 3) + [long + "1", long + "2"]}
        rows = {}
        for s in sources:
            k = s["url"] + " " + s["lang"]
            if k in rows: continue
            rows[k] = []
            for i in range(150 if big else rng.randint(1, 5)):
                row = [enc(rng.choice(pool[t]) + (str(i) if big else "")) for t in types]
                if row not in rows[k]: rows[k].append(row)
        tables.append({"name": n, "types": types, "rows": rows, "pool": pool})
    return tables


def rand_sel(rng, sources, tables):
    t = rng.choice(tables)
    s = rng.choice(sources)
    vals = [enc(None) if rng.random() < .5 else enc(rng.choice(t["pool"][ty])) for ty in t["types"]]
    rows = t["rows"][s["url"] + " " + s["lang"]]
    if rng.random() < .4: vals = [v if v["k"] == "n" else x for v, x in zip(vals, rng.choice(rows))]
    return {"src": s["name"], "t": t["name"], "vals": vals}


LOOKALIKES = [("'", '"'), ("'", "`"), ("\\", "\\\\"), ("\n", "\\n"), ("\n", " "), ("\t", " "), ("\u00e9", "e\u0301"), ("\u00e9", "e"), ("\u00e9", "\u00c9"), ("/", "_"), ("/", "\\"),
              ("", " "), (",", ", "), ("1", "\uff11"), ("\u00a0", " "), ("", "\u200b"), ("\r\n", "\n"), (":", ";"), ("a", "\u0430"), ("\U0001f600", "\U0001f601"), ("\u00e9", "\u00e8")]


def twin(rng, v):
    """almost the same value"""
    if v["k"] != "s" or not v["s"]: return v
    s = v["s"]
    i = rng.randrange(len(s))
    return {"k": "s", "s": rng.choice([s.swapcase(), s[:i] + s[i].swapcase() + s[i + 1:], s[:i] + s[i + 1:], s + " ", " " + s, s[:i] + rng.choice("xX1'_-") + s[i + 1:], s + "'", s + "\\"])}


def finish(case):
    for t in case["tables"]: t.pop("pool", None)
    return case


def rand_sources(rng):
    s = [{"name": "A", "url": "http://a/sparql", "lang": "en", "dir": "a"}]
    if rng.random() < .5: s.append({"name": "B", "url": "http://b/sparql", "lang": rng.choice(["en", "nl"]), "dir": rng.choice(["b", None])})
    if rng.random() < .15: s.append({"name": "C", "url": "http://a/sparql", "lang": "en", "dir": "not/there", "missing": True})
    return s


def rand_case(rng):
    sources = rand_sources(rng)
    tables = rand_tables(rng, sources, rng.random() < .04)
    pool = [rand_sel(rng, sources, tables) for _ in range(rng.randint(2, 5))]
    # near twins: the same words, divided differently
    x = rng.choice(pool)
    pool.append(dict(x, vals=x["vals"][::-1]))
    pool.append(dict(x, vals=[twin(rng, v) for v in x["vals"]]))
    y = [v for v in x["vals"] if v["k"] == "s" and v["s"][-1:] in ("1", "2")]
    if y: pool.append(dict(x, vals=[dict(v, s=v["s"][:-1] + "21"[int(v["s"][-1]) - 1]) if v in y else v for v in x["vals"]]))
    # values that only differ in a character that may be normalised on the way to a file name
    pairs = []
    for _ in range(rng.choice([0, 2, 5])):
        t, s = rng.choice(tables), rng.choice(sources)
        i = rng.choice([i for i in (0, 1) if t["types"][i] == "text"] or [None])
        if i is None: continue
        v = rng.choice(t["pool"]["text"])[:20]
        at = rng.randint(0, len(v))
        two = rng.random() < .5
        for n, c in enumerate(rng.choice(LOOKALIKES)):
            w = v[:at] + c + v[at:]
            other = enc("urn:%d" % n if t["types"][1 - i] == "id" else "value%d" % n)
            row = [enc(w), other] if i == 0 else [other, enc(w)]
            rows = t["rows"][s["url"] + " " + s["lang"]]
            if row not in rows: rows.append(row)
            vals = row if two else [x if j == i else enc(None) for j, x in enumerate(row)]
            pairs.append({"src": s["name"], "t": t["name"], "vals": vals})
    pool += pairs
    if rng.random() < .5:
        t2 = [t for t in tables if t["types"] == [t for t in tables if t["name"] == x["t"]][0]["types"] and t["name"] != x["t"]]
        if t2: pool.append(dict(x, t=t2[0]["name"]))
    if x["vals"][1]["k"] == "s" and rng.random() < .5: pool.append(dict(x, vals=[x["vals"][0], enc(None)]))
    ops = []
    for _ in range(rng.randint(3, 9)):
        sel = dict(rng.choice(pool), p=rng.choice([1, 2, 3]))
        if rng.random() < .1: sel["fail"] = rng.choice([403, 429, 400, 500, -1])
        r = rng.random()
        if r < .45: ops.append(dict(sel, op="select"))
        elif r < .6: ops.append(dict(sel, op="begin", k=rng.randint(1, 8)))
        elif r < .68: ops.append({"op": "step", "p": sel["p"], "k": rng.choice([0, 1, 2, 3])})
        elif r < .75: ops.append({"op": "kill", "p": sel["p"]})
        elif r < .85: ops.append(dict(sel, op="crash", n=rng.choice([0, 1, 2, 5, 10, 20, 40, 60, 80, 100, 150, 4096, 8192, 9000])))
        elif r < .9:
            ops.append(dict(sel, op="full", n=rng.choice([0, 1, 10, 30, 60, 100])))
            if rng.random() < .5: ops += [dict(sel, op="select", fail=0) for _ in range(2)]
        else: ops.append({"op": "damage", "how": rng.choice(HOWS)})
    for s in pool[:2] + pool[-4:] + pairs: ops.append(dict(s, op="select", p=9))
    if rng.random() < .5: ops += [dict(pool[0], op="select", p=9)]
    return finish({"sources": sources, "tables": tables, "ops": ops})


def every_byte(rng, tier):
    """the process dies after each number of bytes"""
    out = []
    for big in ([False] if tier == "quick" else [False, True]):
        sources = rand_sources(rng)[:1]
        tables = rand_tables(rng, sources, big)
        sel = {"src": "A", "t": tables[0]["name"], "vals": [enc(None), enc(None)]}
        ns = list(range(0, 260, 4 if tier == "quick" else 1)) if not big else list(range(0, 20000, 411)) + [8191, 8192, 8193]
        group = 1 if big else 8
        for i in range(0, len(ns), group):
            ops = []
            for n in ns[i:i + group]:
                ops += [dict(sel, op="crash", n=n, p=1), dict(sel, op="select", p=2), dict(sel, op="select", p=3), {"op": "damage", "how": "empty"}]
            out.append(finish(json.loads(json.dumps({"sources": sources, "tables": tables, "ops": ops}))))
    return out


def shared_directory():
    """known finding: the endpoint and the language are not part of the key"""
    out = []
    for other in [{"name": "B", "url": "http://b/sparql", "lang": "en", "dir": "a"}, {"name": "B", "url": "http://a/sparql", "lang": "nl", "dir": "a"}]:
        sources = [{"name": "A", "url": "http://a/sparql", "lang": "en", "dir": "a"}, other]
        rows = {"http://a/sparql en": [[enc("urn:1"), enc("one")]], other["url"] + " " + other["lang"]: [[enc("urn:2"), enc("two")]]}
        tables = [{"name": "rdfs:label", "types": ["id", "text"], "rows": rows}]
        sel = {"t": "rdfs:label", "vals": [enc(None), enc(None)], "op": "select", "p": 1}
        out.append({"sources": sources, "tables": tables, "ops": [dict(sel, src="A"), dict(sel, src="B")], "finding": "C20-shared-directory"})
    return out


def cases(rng, tier):
    n = 180 if tier == "quick" else 2500
    return every_byte(rng, tier) + shared_directory() + [rand_case(rng) for _ in range(n)]


def replay(behaviours, rng, tier):
    hs = sorted((b["h"] for b in behaviours), key=str)
    hs = rng.sample(hs, min(len(hs), 120 if tier == "quick" else 3000))
    sources = [{"name": "A", "url": "http://a/sparql", "lang": "en", "dir": "a"}]
    rows = {"http://a/sparql en": [[enc("urn:1"), enc("one")], [enc("urn:1"), enc("uno")], [enc("urn:2"), enc("two")]]}
    tables = [{"name": "rdfs:label", "types": ["id", "text"], "rows": rows}]
    sel = {1: [enc("urn:1"), enc(None)], 2: [enc(None), enc("two")]}
    out = []
    for h in hs:
        ops = []
        for x in h:
            if x["a"] == "start": ops.append({"op": "begin", "p": x["p"], "k": 1, "src": "A", "t": "rdfs:label", "vals": sel[x["s"]]})
            elif x["a"] == "step": ops.append({"op": "step", "p": x["p"], "k": 1})
            elif x["a"] == "crash": ops.append({"op": "kill", "p": x["p"]})
            else: ops.append({"op": "damage", "how": rng.choice([h for h in HOWS if h != "directory"])})
        for p in (1, 2): ops.append({"op": "step", "p": p, "k": 0})
        for s in (1, 2): ops += [{"op": "select", "p": 3, "src": "A", "t": "rdfs:label", "vals": sel[s]}] * 2
        out.append({"sources": sources, "tables": tables, "ops": ops})
    return out


PROPS = {"C20": dict(cases=cases, run=run, trace="Trace_Cache", nontrivial=nontrivial, mc=[{"module": "MC_Cache", "replay": replay}])}
