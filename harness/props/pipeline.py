"""C06, C23: the pipeline and the multilingual composite."""
ERRS = ["e1", "e2", "unknown_word", "not_understood", "no_sentence"]


def run(case):
    from richard.block.FindOne import FindOne
    from richard.block.FindAll import FindAll
    from richard.block.TryFirst import TryFirst
    from richard.core.System import System
    from richard.core.Model import Model
    from richard.entity.ProcessResult import ProcessResult
    from richard.entity.Relation import Relation
    from richard.entity.SentenceRequest import SentenceRequest
    from richard.interface.Product import SomeProduct
    from richard.interface.SomeModule import SomeModule
    from richard.interface.SomeProcessor import SomeProcessor
    from richard.processor.language_selector.LanguageSelector import LanguageSelector
    from richard.processor.language_selector.Multilingual import Multilingual
    KINDS = {"one": FindOne, "all": FindAll, "first": TryFirst}
    stored = []

    class Recorder(SomeModule):
        def __init__(self):
            super().__init__()
            for p in ["output_type"] + ["output_" + e for e in ERRS]:
                self.add_relation(Relation(p, arguments=["a"], query_function=lambda v, c: [], write_function=self.write))

        def write(self, values, context):
            stored.append([context.relation.predicate, *values])

    class Product(SomeProduct):
        def __init__(self, v): self.v = v
        def log(self, logger): logger.add(self.v)
        def get_output(self): return self.v

    class EqualProduct(Product):
        def __eq__(self, o): return True
        def __hash__(self): return 1

    state = {"k": 0}
    events, blocks = [], []
    P = EqualProduct if case.get("equal") else Product
    again = {}

    def product(d, i, v):
        """a processor may return the same product every time"""
        if not case.get("again"): return P(v)
        i = i // case["again"]
        return again.setdefault((d, i), P(f"same.{d}.{i}"))

    def seen(d, request):
        out = []
        for b in blocks[:d]:
            p = request.get_current_product(b.processor)
            out.append(p.get_output() if p is not None else "nothing")
        return out

    class Scripted(SomeProcessor):
        def __init__(self, d, name): self.d, self.name = d, name
        def get_name(self): return self.name
        def process(self, request):
            # after many calls nothing new is tried: the run ends when it has gone through what it has
            o = case["os"][state["k"] % len(case["os"])] if state["k"] < 300 else {"err": "e1", "args": [], "n": 0}
            out = {"err": o["err"], "args": o["args"], "prods": [f"{state['k']}.{i + 1}" for i in range(o["n"])]}
            if len(events) > 2000: raise Exception("too many calls")
            state["k"] += 1
            prods = [product(self.d, i, v) for i, v in enumerate(out["prods"])]
            out["prods"] = [p.get_output() for p in prods]
            events.append({"op": "call", "d": self.d + 1, "proc": self.name, "seen": seen(self.d, request), "out": out})
            return ProcessResult(prods, out["err"], list(out["args"]))

    class Selector(LanguageSelector):
        d = 0
        def process(self, request):
            s = seen(self.d, request)
            r = super().process(request)
            events.append({"op": "call", "d": self.d + 1, "proc": "sel", "seen": s,
                           "out": {"err": r.error_type, "args": list(r.error_args), "prods": [p.get_output() for p in r.products]}})
            return r

    events.append({"op": "start", "pipe": [{"locales": list(b.get("locales", [])), **{k: b[k] for k in ("kind", "sel", "procs")}} for b in case["pipe"]]})
    sel = None
    for d, b in enumerate(case["pipe"]):
        if b["sel"]:
            p = sel = Selector(list(b["locales"])); sel.d = d
        elif "any" in b["procs"]:
            p = Scripted(d, b["procs"]["any"])
        else:
            p = Multilingual({loc: Scripted(d, n) for loc, n in b["procs"].items()}, sel)
        blocks.append(KINDS[b["kind"]](p))
    system = System(Model([Recorder()]), list(blocks))
    texts = case.get("runs", 1)
    for n in range(texts):
        if n:
            events.append(events[0]); stored.clear()
        request = SentenceRequest("text")
        fin = {"op": "finish", "raised": False, "err": "", "args": [], "alts": [], "answer": "none", "stored": []}
        try:
            a = system.enter(request)
            fin["answer"] = a if isinstance(a, str) else "none"
        except Exception as e:
            fin.update(raised=True, why=repr(e)[:200])
        fin["stored"] = [list(s) for s in stored]
        if stored and stored[0][0] == "output_type":
            fin["err"] = stored[0][1]; fin["args"] = stored[1][1:] if len(stored) > 1 else ["?"]
        fin["alts"] = [[p.get_output() for p in request.get_alternative_products(b.processor)] for b in blocks]
        events.append(fin)
    return events


def nontrivial(case, events):
    return sum(e["op"] == "call" for e in events) > 1


def rand_out(rng, perr):
    if rng.random() < perr:
        return {"err": rng.choice(ERRS), "args": [rng.choice(["x", "y"]) for _ in range(rng.choice([0, 1, 1, 2]))], "n": 0}
    return {"err": "", "args": [], "n": rng.choice([1, 1, 2, 2, 3])}


def block(rng, name):
    return {"kind": rng.choice(["one", "one", "all", "first"]), "sel": False, "procs": {"any": name}}


def rand_case(rng, multi):
    n = rng.choice([1, 2, 3, 3, 4, 5])
    pipe = [block(rng, f"P{d}") for d in range(n)]
    if multi:
        # almost the same locales are different ones
        locs = rng.choice([["nl_NL", "en_US", "de", "fr"], ["nl", "nl_NL", "nl_BE", "NL"], ["en_US", "en-US", "en", "en_GB"], ["nl_NL", "nl", "en_US", "en"]])
        listed = rng.sample(locs, rng.randint(1, 4))
        phave = rng.choice([.93, .93, .6])
        if rng.random() < .1: listed.append(rng.choice(listed))
        kinds = ["one", "one", "one", "all", "first"]
        pos = rng.choice([0, 0, 0, 1])
        pipe = pipe[:3]
        pipe.insert(min(pos, len(pipe)), {"kind": rng.choice(kinds), "sel": True, "procs": {"any": "sel"}, "locales": listed})
        first = True
        for d in range(min(pos, len(pipe)) + 1, len(pipe) + 1):
            if first or rng.random() < .3:
                have = [x for x in listed if rng.random() < phave] + ([rng.choice(locs)] if rng.random() < .3 else [])
                b = {"kind": rng.choice(kinds), "sel": False, "procs": {x: f"M{d}@{x}" for x in have} or {"xx": "M"}}
                if d < len(pipe) and not first: pipe[d] = b
                else: pipe.insert(d, b)
                first = False
    perr = rng.choice([.1, .3, .3, .5, .7])
    os = [rand_out(rng, perr) for _ in range(rng.choice([3, 7, 20, 60]))]
    if rng.random() < .1:
        # many alternatives, of which a late one or none is accepted
        pipe = pipe[:3] if not multi else pipe
        os = [rand_out(rng, .95) for _ in range(97)]
        os[1 if multi else 0] = {"err": "", "args": [], "n": rng.randint(6, 60)}
    return {"pipe": pipe, "os": os,
            "equal": rng.random() < .1, "again": rng.choice([0] * 14 + [1, 2]), "runs": rng.choice([1, 1, 1, 2])}


def cases_C06(rng, tier):
    return [rand_case(rng, False) for _ in range(500 if tier == "quick" else 6000)]


def cases_C23(rng, tier):
    return [rand_case(rng, True) for _ in range(700 if tier == "quick" else 8000)]


def replay(behaviours, rng, tier):
    bs = sorted(behaviours, key=str)
    return [{"pipe": b["pipe"], "os": [{"err": o["err"], "args": o["args"], "n": len(o["prods"])} for o in b["os"]]} for b in bs]


def P(cases, **kw):
    d = dict(cases=cases, run=run, trace="Trace_Pipeline", nontrivial=nontrivial, mc=[])
    d.update(kw)
    return d


MC = [{"module": "MC_Pipeline", "cfg": "MC_Pipeline", "replay": replay},
      {"module": "MC_Pipeline", "cfg": "MC_Pipeline_t", "tier": "thorough", "workers": "8", "timeout": 800}]
PROPS = {"C06": P(cases_C06, mc=MC),
         "C23": P(cases_C23, mc=[{"module": "MC_Multi", "cfg": "MC_Multi"}])}
