"""C24: dialogues; C25: logging."""
import props.compose
import contextlib, copy, hashlib, io, json, re
from common import codes, uncodes, enc, dec, V, RV, L, T, A
from props.model import build_model, spec_mods
from props.parse import render_syn, C
from props.compose import evaluate, tenc, expand_rhs
from props.generate import write_rule, spec_rule as spec_write, BUILTIN, W, R, rule as wrule

# ------------------------------------------------------------------ running


def norm(e):
    e = re.sub("\x1b\\[(\\d+)m", r"<\1>", e)
    e = re.sub("<function .*? at 0x[0-9a-f]+>", "<function>", e)
    e = re.sub("~+", "~", e) if e.startswith("<33>~~[") else e
    return re.sub(r"^<90>\d+ msecs", "<90># msecs", e)


def enc_tree(node, ids):
    if not node.children:
        t = {"word-form": "w", "reg-exp": "x"}.get(node.rule.antecedent.position_type, "?")
        return {"r": 0, "t": t, "p": node.category if t != "w" or node.category != node.form else "", "f": codes(node.form), "s": node.form, "c": []}
    return {"r": ids.get(id(node.rule.sem), -1), "t": "r", "p": node.category, "f": codes(node.form), "s": "",
            "c": [enc_tree(c, ids) for c in node.children]}


def pairs(b): return [[k, enc(v)] for k, v in b.items()]


class LateRule:
    """a grammar rule that can be learned"""
    def __init__(self, i): self.i = i


class Run:
    def __init__(self, case, conf, nth, events):
        from richard.core.BasicGenerator import BasicGenerator
        from richard.core.Logger import Logger
        from richard.core.System import System
        from richard.entity.ProcessResult import ProcessResult
        from richard.interface.Product import SomeProduct
        from richard.interface.SomeProcessor import SomeProcessor
        from richard.interface.SomeQueryOptimizer import SomeQueryOptimizer
        from richard.block.FindOne import FindOne
        from richard.block.FindAll import FindAll
        from richard.block.TryFirst import TryFirst
        from richard.processor.language_selector.LanguageSelector import LanguageSelector
        from richard.processor.language_selector.Multilingual import Multilingual
        from richard.processor.parser.BasicParser import BasicParser
        from richard.processor.parser.helper.SimpleGrammarRulesParser import SimpleGrammarRulesParser
        from richard.processor.semantic_composer.SemanticComposer import SemanticComposer
        from richard.processor.semantic_composer.optimizer.BasicQueryOptimizer import BasicQueryOptimizer
        from richard.processor.semantic_executor.AtomExecutor import AtomExecutor
        from richard.entity.SentenceRequest import SentenceRequest
        me = self
        self.case, self.events, self.nth = case, events, nth
        self.leaves = {}
        self.late, self.semlate = {}, {}
        self.keep, self.names, self.k, self.k2 = [], {}, 0, 0
        grammars, ids = {}, {}
        self.sgrammars = {}
        taught = [m["g"] for m in case["mods"] if m["kind"] == "grammar"]
        for pname in case["g"]:
            g, rules = case["g"][pname], []
            ids[pname] = {}
            for k, r in enumerate(g):
                def fn(key, r=r):
                    def f(*vals):
                        props.compose.LATE = me.late
                        return evaluate(r[key], vals)
                    return f
                sem = fn("sem"); ids[pname][id(sem)] = k + 1; self.keep.append(sem)
                x = {"syn": render_syn(r), "sem": sem}
                if r["exe"]["e"] != "none": x["exec"] = fn("exe")
                if r["dlg"]["e"] != "none": x["dialog"] = fn("dlg")() if r.get("dlgconst") else fn("dlg")
                if r["boost"]: x["boost"] = r["boost"]
                if not r.get("late"): rules.append(x)
                elif pname in taught: self.late[k + 1] = x; self.semlate[id(sem)] = k + 1
            grammars[pname] = SimpleGrammarRulesParser().parse_read_grammar(rules)
            self.sgrammars[pname] = {
                "rules": [{"lhs": r["lhs"], "ar": r["ar"], "boost": r["boost"], "late": bool(r.get("late")), "rhs": [{k: c[k] for k in ("t", "p", "ar", "f", "o", "j")} for c in r["rhs"]]} for r in g],
                "c": [{"ar": r["ar"], "rhs": expand_rhs(r["rhs"]), "sem": r["sem"], "exe": r["exe"], "dlg": r["dlg"]} for r in g]}
        self.model, self.modules = build_model([dict(m, object=grammars[m["g"]]) if m["kind"] == "grammar" else m for m in copy.deepcopy(case["mods"])])
        self.shown = 0
        self.logger = Logger()

        class Scripted(SomeProcessor):
            def __init__(self, d, name): self.d, self.name = d, name
            def get_name(self): return self.name

        def record(proc, d, name, run, request, more):
            ev = {"op": "call", "d": d + 1, "proc": name, "seen": [me.name_of(request.get_current_product(b.processor)) for b in me.blocks[:d]]}
            if len(events) > 3000: raise Exception("too many calls")
            try:
                r = run(request)
            except Exception as e:
                ev["out"] = {"e": True, "why": repr(e)[:200]}
                me.k += 1
                me.emit(ev, {"e": True})
                raise
            me.k += 1
            prods = []
            for i, p in enumerate(r.products):
                me.keep.append(p)
                n = p.locale if d == me.sel else f"{me.k}.{i + 1}"
                me.names[id(p)] = n
                prods.append(n)
            out = {"e": False, "err": r.error_type, "args": [me.enc(a) for a in r.error_args], "prods": prods}
            extra, secret = more(r)
            out["vals"] = extra.pop("vals")
            out.update(extra)
            ev["out"] = out
            me.emit(ev, {k: v for k, v in out.items() if k not in secret})
            return r

        class RecParser(BasicParser):
            def process(self, request):
                return record(self, self.d, self.pname, super().process, request, lambda r: (
                    {"trees": [enc_tree(p.parse_tree, self.ids) for p in r.products],
                     "vals": [enc_tree(p.get_output(), self.ids) for p in r.products],
                     "argcodes": [codes(a) for a in r.error_args]}, ()))

        class RecSelector(LanguageSelector):
            def process(self, request):
                return record(self, self.d, "sel", super().process, request, lambda r: ({"vals": [p.get_output() for p in r.products]}, ()))

        class RecComposer(SemanticComposer):
            def process(self, request):
                def more(r):
                    p = r.products[0]
                    its = [[n, me.enc(v)] for n, v in p.semantics_iterations.items()]
                    return {"its": its, "exe": me.enc(list(p.executable))["l"], "dlg": me.enc(list(p.inferences))["l"],
                            "roots": list(p.return_variables), "vals": [me.enc(q.get_output()) for q in r.products]}, ()
                return record(self, self.d, self.pname, super().process, request, more)

        class RecExecutor(AtomExecutor):
            def process(self, request):
                def more(r):
                    p = r.products[0]
                    return {"r": [me.pairs(b) for b in p.bindings], "stats": [[k, n] for k, n in p.stats.items()],
                            "vals": [[me.pairs(b) for b in q.get_output()] for q in r.products]}, ("stats",)
                return record(self, self.d, self.pname, super().process, request, more)

        class Checked(SomeProduct):
            def __init__(self, v): self.v = v
            def log(self, logger): logger.add("checked")
            def get_output(self): return self.v

        class RecChecker(Scripted):
            def process(self, request):
                def run(request):
                    r = request.get_current_product(self.executor).bindings
                    kind = self.kind
                    err = "e1" if kind == "some" and not r or kind == "single" and len(r) != 1 else "e2" if kind == "none" and r or kind == "never" else ""
                    return ProcessResult([Checked(["checked", len(r)])] if not err else [], err, ["no"] if err == "e2" else [])
                return record(self, self.d, self.pname, run, request, lambda r: ({"vals": [p.get_output() for p in r.products]}, ()))

        class Arranger(SomeQueryOptimizer):
            """stands for any optimizer"""
            def optimize(self, semantics, root_variables):
                return {"Semantics": semantics, "Same": list(semantics), "Turned": list(reversed(semantics)), "Last": list(reversed(semantics))}

        BLOCK = {"one": FindOne, "all": FindAll, "first": TryFirst}
        def parser(d, pname):
            p = RecParser(grammars[pname])
            p.d, p.pname, p.ids = d, pname, ids[pname]
            return p
        procs = []
        self.sel = -1
        by = {}
        for d, b in enumerate(case["pipe"]):
            role = b["role"]
            if role == "select":
                p = RecSelector(list(b["locales"])); p.d = d; self.sel = d
            elif role == "parse":
                if "any" in b["procs"]: p = parser(d, b["procs"]["any"])
                else: p = Multilingual({loc: parser(d, n) for loc, n in b["procs"].items()}, by["select"])
            elif role == "compose":
                opt = {"": lambda: None, "arrange": Arranger, "basic": lambda: BasicQueryOptimizer(self.model)}[b.get("opt", "")]()
                p = RecComposer(by["parse"], opt); p.d, p.pname = d, b["procs"]["any"]
            elif role == "execute":
                p = RecExecutor(by["compose"], self.model); p.d, p.pname = d, b["procs"]["any"]
            else:
                p = RecChecker(d, b["name"]); p.pname, p.kind, p.executor = b["procs"]["any"], b["check"], by["execute"]
            by[role] = p
            procs.append(p)
        self.blocks = [BLOCK[b["kind"]](p) for b, p in zip(case["pipe"], procs)]
        wg = SimpleGrammarRulesParser().parse_write_grammar([write_rule(r) for r in case["rules"]])
        generator = BasicGenerator(wg, self.model, self.modules[case["ob"] - 1])

        class RecSystem(System):
            def enter(self, request): return me.enter(super().enter, request)
            def read_output(self): return me.read(super().read_output)
        self.system = RecSystem(self.model, list(self.blocks), generator)
        self.procs = procs
        self.SentenceRequest = SentenceRequest
        self.configure(conf)
        self.init = {"op": "init", "run": nth, "obs": "", "mods": spec_mods(case["mods"]), "cfg": self.cfg,
                     "sys": {"pipe": [{k: v for k, v in b.items() if k != "opt"} for b in case["pipe"]], "g": self.sgrammars,
                             "rules": [spec_write(r) for r in case["rules"]], "ob": case["ob"], "judge": case["judge"],
                             "strs": [], "texts": [],
                             "optimizer": any(b.get("opt") == "basic" for b in case["pipe"])}}
        events.append(self.init)

    def configure(self, conf):
        lg = self.logger
        for c in conf["calls"]:
            if c[0] == "products": lg.log_products(*[self.procs[d - 1] for d in c[1]])
            elif c[0] == "stats": lg.log_stats()
            elif c[0] == "last": lg.is_last_test = c[1]
            else: getattr(lg, c[0])()
        self.cfg = {k: conf[k] for k in ("which", "last", "prod", "sel", "stats")}

    def rules(self, v):
        """grammar rules by their number"""
        if isinstance(v, list): return [self.rules(x) for x in v]
        if isinstance(v, tuple): return tuple(self.rules(x) for x in v)
        if isinstance(v, dict) and id(v.get("sem")) in self.semlate: return LateRule(self.semlate[id(v["sem"])])
        return v

    def enc(self, v):
        t = tenc(self.rules(v))
        def walk(t):
            if t["k"] in "lt":
                for x in t[t["k"]]: walk(x)
            elif t["k"] == "g":
                w = re.sub("<function .*? at 0x[0-9a-f]+>", "<function>", str(self.late[t["i"]]))
                self.leaves[json.dumps(t)] = [t, w, w]
            elif t["k"] not in "vni" and not (t["k"] == "s" and re.fullmatch(r"[\w$. ]*", t["s"])):
                try: w = dec(t)
                except Exception: w = v
                self.leaves[json.dumps(t)] = [t, str(w), repr(w)]
        walk(t)
        return t

    def pairs(self, b): return [[k, self.enc(v)] for k, v in b.items()]

    def name_of(self, p): return "nothing" if p is None else self.names.get(id(p), "other")

    def emit(self, ev, obs):
        ev["run"] = self.nth
        o = json.dumps(obs, sort_keys=True)
        ev["obs"] = o if len(o) < 200 else o[:100] + hashlib.sha1(o.encode()).hexdigest()
        self.events.append(ev)

    def log(self):
        new = [norm(e) for e in self.logger.entries[self.shown:]]
        self.shown = len(self.logger.entries)
        return new

    def facts(self):
        out = []
        for i, m in enumerate(self.case["mods"]):
            if m["kind"] not in ("table", "ctx"): continue
            mod = self.modules[i]
            rels = mod.get_relations()
            for p in m["rels"]:
                cols = rels[p].arguments
                try: rows = mod.data_source.select(p, cols, [None] * len(cols))
                except Exception as e: rows = [["unreadable " + repr(e)[:80]]]
                out.append([i + 1, p, [[self.enc(x) for x in row] for row in rows]])
        return out

    def enter(self, original, request):
        self.keep, self.k = [], 0
        self.names = {}
        text = re.sub(r"\s+", " ", request.text)
        pats = {c["p"] for g in self.case["g"].values() for r in g for c in r["rhs"] if c["t"] == "x"}
        rex = {p: [m.end() if m else 0 for i in range(len(text) + 1) for m in [re.match(p, text[i:])]] for p in pats}
        self.emit({"op": "enter", "text": codes(request.text), "string": request.text, "re": rex, "log": self.log()}, "")
        fin = {"op": "finish", "raised": False, "answer": "", "value": ""}
        try:
            v = original(request)
            if v is not None:
                p = request.get_current_product(self.blocks[-1].processor)
                fin["answer"] = self.name_of(p)
                fin["value"] = self.value(v)
            return v
        except Exception as e:
            fin.update(raised=True, why=repr(e)[:200])
            raise
        finally:
            fin["alts"] = [[self.name_of(p) for p in request.get_alternative_products(b.processor)] for b in self.blocks]
            fin["facts"] = self.facts()
            obs = {k: v for k, v in fin.items() if k != "why"}
            fin["log"] = self.log()
            self.emit(fin, obs)

    def value(self, v):
        role = self.case["pipe"][-1]["role"]
        if role == "parse":
            p = self.procs[-1]
            if not hasattr(p, "ids"): p = next(q for q in p.processors.values() if id(v.rule.sem) in q.ids)
            return enc_tree(v, p.ids)
        if role == "compose": return self.enc(v)
        if role == "execute": return [self.pairs(b) for b in v]
        return v

    def read(self, original):
        ev = {"op": "read"}
        try:
            v = original()
            ev["out"] = {"e": False, "v": self.enc(v)}
            self.last_output = v
            return v
        except Exception as e:
            ev["out"] = {"e": True, "v": {"k": "n"}, "why": repr(e)[:200]}
            self.last_output = "?"
            raise
        finally:
            ev["facts"] = self.facts()
            obs = [{k: v for k, v in ev["out"].items() if k != "why"}, ev["facts"]]
            ev["log"] = self.log()
            self.emit(ev, obs)

    def plain(self, ops):
        outputs = []
        logger = self.logger
        for op in ops:
            if op["op"] == "cfg":
                if self.nth > 1:
                    self.configure(op["conf"])
                    self.emit({"op": "cfg", "cfg": self.cfg}, "")
                continue
            try:
                if op["op"] == "enter":
                    req = self.SentenceRequest(op["text"], logger=logger) if self.nth > 1 or op.get("log") else self.SentenceRequest(op["text"])
                    self.system.enter(req)
                else: self.system.read_output()
            except Exception: pass
            if op["op"] == "read": outputs.append(self.last_output)
        return outputs

    def tester(self, tests, profile):
        import unittest
        from richard.core.DialogTester import DialogTester
        self.emit({"op": "tests", "tests": [[codes(t), self.enc(e)] for t, e in tests]}, "")
        out = io.StringIO()
        ev = {"op": "tested", "raised": False}
        with contextlib.redirect_stdout(out):
            try: DialogTester(unittest.TestCase(), tests, self.system, self.logger, profile).run()
            except Exception as e: ev.update(raised=True, why=repr(e)[:200])
        s = str(self.logger)
        ev["printed"] = s in out.getvalue() if s else ev["raised"]
        ev["log"] = self.log()
        self.emit(ev, "")

    def end(self):
        from richard.core.Logger import nullLogger
        ev = {"op": "end", "log": self.log(), "null": nullLogger.entries == [], "whole": str(self.logger) == "".join(e + "\n" for e in self.logger.entries)}
        self.emit(ev, self.facts())
        self.init["sys"]["texts"] = list(self.leaves.values())
        self.init["sys"]["strs"] = [x[:2] for x in self.init["sys"]["texts"]]


def run(case):
    events, outputs = [], []
    for n, conf in enumerate(case["runs"]):
        r = Run(case, conf, n + 1, events)
        if conf.get("tests"):
            tests = []
            for i, op in enumerate([o for o in case["ops"] if o["op"] == "enter"]):
                expected = outputs[i] if i < len(outputs) else "?"
                tests.append((op["text"], "different" if i in conf["tests"]["wrong"] else expected))
            r.tester(tests, conf["tests"]["profile"])
        else:
            o = r.plain(case["ops"])
            if n == 0: outputs = o
        r.end()
    # a very long trace is judged as far as it goes
    size = 0
    for i, e in enumerate(events):
        size += len(json.dumps(e)) + 2
        if size > 380000: return events[:i]
    return events


def nontrivial(case, events):
    return any(e["op"] == "call" for e in events)


# ------------------------------------------------------------------ generating

NONE = {"e": "none"}
def lit(*atoms): return {"e": "lit", "v": L(*atoms)}
def kid(i): return {"e": "child", "i": i}
def cat(*xs): return {"e": "cat", "xs": list(xs)}
def X(x): return {"k": "x", "x": x}
def app(f, *xs): return {"e": "apply", "f": f, "xs": list(xs)}
BODY = {"e": "slot", "s": "Body"}
def tmpl(x): return {"e": "tmpl", "slots": ["Body"], "x": x}
E1, E2, E3 = V("E1"), V("E2"), V("E3")


def rr(lhs, ar, rhs, sem, exe=NONE, dlg=NONE, boost=0, const=False):
    return {"lhs": lhs, "ar": list(ar), "rhs": rhs, "sem": sem, "exe": exe, "dlg": dlg, "boost": boost, "dlgconst": const}


def rand_grammar(rng, safe):
    words = rng.sample(["is", "a", "no", "who", "an", "x", "b", "it", "I", "ab"], 8)
    w = lambda: C("w", f=rng.choice(words))
    n, k = C("r", "n"), C("r", "k")
    v = lambda a, b: C("r", "v", [a, b])
    vp = lambda a="E1": C("r", "vp", [a])
    np = lambda a="E1": C("r", "np", [a])
    store = lambda *atoms: A("store", L(*atoms))
    out = lambda t, *vals: [A("output_type", t)] + [A("output_value", x) for x in vals]
    g = []
    # names and kinds
    g.append(rr("n", [], [C("x", rng.choice(["[a-c]+", "[a-z]+", "[ab]+", "[a-z]"]))], kid(1)))
    if rng.random() < .5: g.append(rr("n", [], [C("w", f=rng.choice(["ann", "a", "bob"]))], {"e": "str", "s": rng.choice(["ann", "it's", "a"])}))
    if rng.random() < .05:
        # a name can be read in many ways
        for x in rng.sample(["[a-d]+", "[ab]", "[a-y]+", "[a-bx]+", "[a-c]", "ab?", "[^ c]+"], rng.choice([2, 3, 4])): g.append(rr("n", [], [C("x", x)], kid(1)))
    for i in range(rng.choice([1, 2])):
        g.append(rr("k", [], [C("w", f=["a", "ab"][i] if rng.random() < .6 else rng.choice(words))], {"e": "str", "s": ["a", "b"][i]}))
    pool = []
    # verbs
    for p in rng.sample(["rel", "known", "likes", "rel"], rng.choice([1, 2, 2])):
        g.append(rr("v", ["E1", "E2"], [w()], lit(A(p, E1, E2))))
    # verb phrases
    g.append(rr("vp", ["E1"], [v("E1", "E2"), n], cat(kid(1), lit(A("equals", E2, X(kid(2))))) if rng.random() < .5 else cat(lit(A("let", E2, X(kid(2)))), kid(1))))
    vps = [rr("vp", ["E1"], [w(), k], lit(A("isa", E1, X(kid(1))))),
           rr("vp", ["E1"], [w(), vp()], lit(A("not", X(kid(1))))),
           rr("vp", ["E1"], [vp(), w(), vp()], cat(kid(1), kid(2))),
           rr("vp", ["E1"], [vp(), w(), vp()], lit(A("$disjunction", L(X(kid(1)), X(kid(2)))))),
           rr("vp", ["E1"], [v("E1", "E2"), np("E2")], app(kid(2), kid(1))),
           rr("vp", ["E2"], [v("E3", "E2"), n], cat(kid(1), lit(A("equals", V("E3"), X(kid(2)))))),
           rr("vp", ["E1"], [w()], lit(A("isa", E1, E2), A("rel", E1, E3))),
           rr("vp", ["E1"], [w()], lit(A("scoped", L()), A("isa", E1, E2), A("all", E1, L(), L()))),
           rr("vp", ["E1"], [w(), k], lit(A("isa", E1, X(kid(1))), A("$disjunction", L(L(A("not", L())), L(A("none", L())), L()))))]
    g += rng.sample(vps, rng.choice([1, 2, 3]))
    nps = [rr("np", ["E1"], [n], tmpl(cat(lit(A("equals", E1, X(kid(1)))), BODY))),
           rr("np", ["E1"], [w(), k], tmpl(lit(A("all", E1, L(A("isa", E1, X(kid(1)))), X(BODY))))),
           rr("np", ["E1"], [w(), k], tmpl(cat(lit(A("isa", E1, X(kid(1)))), BODY))),
           rr("np", ["E1"], [w(), k], tmpl(lit(A("none", X(cat(lit(A("isa", E1, X(kid(1)))), BODY))))))]
    g += [nps[0]] + rng.sample(nps[1:], rng.choice([0, 1, 2]))
    # sentences
    statement = [A("isa", X(kid(1)), X(kid(2)))]
    ss = [
        rr("s", [], [n, w(), k], lit(store(*statement))),
        rr("s", [], [n, w(), k], lit(*statement), exe=lit(store(*statement, *out("yes")))),
        rr("s", [], [n, w(), n], {"e": "lit", "v": L()}, dlg=lit(A("dialog_isa", X(kid(1)), X(kid(2))))),
        rr("s", [], [n, w(), n], lit(store(A("rel", X(kid(1)), X(kid(2)))))),
        rr("s", ["E1"], [n, w(), k], lit(A("dialog_isa", X(kid(1)), E1)), dlg=lit(A("dialog_isa", X(kid(1)), X(kid(2)))), exe=lit(store(*out("value", X(kid(2)))))),
        rr("s", ["E1"], [w(), k], lit(store(A("isa", RV("E1"), X(kid(1))))), dlg=lit(A("dialog_isa", RV("E1"), "new")) if rng.random() < .5 else NONE),
        rr("s", [], [np(), vp()], app(kid(1), kid(2))),
        rr("s", [], [np(), vp()], lit(A("$disjunction", L(L(A("scoped", X(app(kid(1), kid(2)))), store(*out("yes"))), L(store(*out("no"))))))),
        rr("s", [], [np(), vp()], app(kid(1), kid(2)), exe=lit(A("$disjunction", L(L(A("scoped", X(app(kid(1), kid(2)))), store(*out("yes"))), L(store(*out("no"))))))),
        rr("s", ["E1"], [w(), vp()], kid(1), exe=lit(A("find_all", RV("E1"), X(kid(1)), V("E4")), store(*out("value", V("E4")))) if safe is False else NONE),
        rr("s", ["E1"], [w(), vp()], cat(kid(1), lit(store(*out("value", E1)))) if not safe else kid(1)),
        rr("s", ["E1", "E2"], [w(), v("E1", "E2")], kid(1)),
        rr("s", [], [w(), k], lit(A("count", E1, L(A("isa", E2, X(kid(1))))), store(*out("value", E1)))),
        rr("s", [], [w(), k], lit(A("learn_rule", A("likes", E1, E2), L(A("rel", E1, E2), A("isa", E1, X(kid(1))))))),
        rr("s", [], [w(), n], lit(A("learn_rule", A("likes", E1, E2), L(A("known", E1, E2)))), dlg=lit(A("dialog_isa", "rule", X(kid(1))))),
        rr("s", [], [C("w", f="go"), n], lit(A("start_context", X(kid(1))))),
        rr("s", [], [C("w", f="no"), n], lit(A("end_context", X(kid(1))))),
        rr("s", ["E1"], [w()], lit(A("context", E1), store(*out("value", E1)))),
        rr("s", [], [w(), n], lit(A("with_context", X(kid(1)), L(A("context", X(kid(1))), store(*out("yes")))), A("context", E1))),
        rr("s", [], [w(), C("r", "s")], cat(kid(1), lit(store(*out("yes"))))),
        rr("s", [], [C("r", "s"), w(), C("r", "s")], cat(kid(1), kid(2))),
        rr("s", [], [w(), w()], lit(A("nonsense", E1)), dlg=lit(A("dialog_isa", "non", "sense"), A("output_type", "yes")), const=True),
        rr("s", [], [w(), n], lit(A("isa", X(kid(1)), E1)), exe=lit(A("isa", E2, "a"), A("rel", E2, E3), A("nonsense") if rng.random() < .2 else A("known", E3, E2))),
        rr("s", [], [w()], {"e": "lit", "v": L()}, dlg=lit(A("isa", "a", rng.choice(["a", "b"])), A("rel", "b", rng.choice(["a", "it's"]))), const=True),
        rr("s", ["E1"], [w()], lit(A("dialog_isa", E2, E1), A("isa", E2, E3))),
    ]
    # inferences, executable and meaning that depend on one another
    seen = lambda: lit(A("count", E1, L(A("dialog_isa", E2, E3))), store(*out("value", E1)))
    linked = [
        rr("s", ["E1"], [n, w(), n], lit(A("dialog_isa", E1, X(kid(2)))), dlg=lit(A("dialog_isa", X(kid(1)), X(kid(2)))), exe=seen()),
        rr("s", ["E1"], [n, w()], lit(A("dialog_isa", E1, E2), A("output_value", E1)), dlg=lit(A("dialog_isa", X(kid(1)), "x")),
           exe=lit(A("dialog_isa", V("E5"), "x"), store(A("output_value", V("E5")), A("output_type", "value")))),
        rr("s", ["E1"], [n, w(), k], lit(A("isa", X(kid(1)), E1)), dlg=lit(A("isa", X(kid(1)), X(kid(2))), A("dialog_isa", X(kid(2)), "y")),
           exe=lit(A("dialog_isa", E2, "y"), A("isa", X(kid(1)), E2), store(A("isa", E2, "seen"), A("rel", E2, X(kid(1)))))),
    ]
    g += rng.sample(ss, rng.choice([3, 5, 7, 9])) + rng.sample(linked, rng.choice([0, 1, 1, 2]))
    # a list left in the buffer may not be asked of the dialog context
    if any("find_all" in str(r["exe"]) for r in g): g = [r for r in g if r not in linked[1:2]]
    for r in g:
        # what is executed and what is meant may be the same
        if r["lhs"] == "s" and r["exe"] == NONE and rng.random() < .1: r["exe"] = r["sem"]
        if rng.random() < .08: r["boost"] = rng.choice([1, -1, 2])
    rng.shuffle(g) if rng.random() < .3 else None
    # rules with the same syntax count as one
    seen, outg = set(), []
    for r in g:
        key = (render_syn(r))
        if key not in seen and not any(unary_loop(r)): seen.add(key); outg.append(r)
    return prune(outg)


def add_teaching(rng, g):
    """rules to be learned, and sentences that teach them"""
    words = ["so", "new", "a", "is", "bob", "c", "it's", "too", "b"]
    w = lambda: C("w", f=rng.choice(words))
    n, k = C("r", "n"), C("r", "k")
    G = lambda i: {"k": "g", "i": i}
    store = lambda *atoms: A("store", L(*atoms))
    yes = A("output_type", "yes")
    have = lambda: {(r["lhs"], len(r["ar"])) for r in g}
    seen = {render_syn(r) for r in g}

    def add(r, late):
        s = render_syn(r)
        if s in seen or any(unary_loop(r)) or any(c["t"] == "r" and (c["p"], len(c["ar"])) not in have() for c in r["rhs"]): return 0
        seen.add(s)
        g.append(dict(r, late=late))
        return len(g)
    news = [
        rr("n", [], [w()], {"e": "str", "s": rng.choice(["bob", "a", "it's", "n w"])}),
        rr("n", [], [C("x", rng.choice(["[a-e]+", "[0-9]+", "[a-z]+"]))], kid(1)),
        rr("n", [], [n, w(), n], kid(1)),
        rr("k", [], [w()], {"e": "str", "s": rng.choice(["a", "b", "c"])}),
        rr("v", ["E1", "E2"], [w()], lit(A("rel", E2, E1))),
        rr("vp", ["E1"], [w(), k], lit(A("isa", E1, X(kid(1))))),
        rr("np", ["E1"], [w()], tmpl(cat(lit(A("isa", E1, "a")), BODY))),
        rr("s", [], [n, w(), n], lit(store(A("rel", X(kid(1)), X(kid(2))))), boost=rng.choice([0, 0, 1, -1])),
        rr("s", [], [w(), n], lit(store(yes)), exe=lit(A("isa", X(kid(1)), E1)), dlg=lit(A("isa", X(kid(1)), "a"))),
        rr("s", [], [n, w()], lit(A("isa", X(kid(1)), E1), store(yes)), boost=rng.choice([0, 1])),
        rr("s", ["E1"], [w()], lit(A("isa", E1, "a"), store(A("output_type", "value"), A("output_value", E1)))),
        rr("s", [], [C("r", "s"), w()], kid(1)),
        rr("deep", [], [w()], {"e": "str", "s": "deep"}),
        rr("s", [], [C("r", "deep"), n], lit(store(A("isa", X(kid(2)), X(kid(1)))))),
    ]
    ids = [i for r in rng.sample(news, rng.choice([2, 3, 4])) for i in [add(r, True)] if i]
    if not ids: return g
    i = lambda: G(rng.choice(ids))
    teach = [
        rr("s", [], [w()], lit(A("learn_grammar_rule", i()))),
        rr("s", [], [w()], lit(A("learn_grammar_rule", i()), A("learn_grammar_rule", i())), exe=lit(store(yes))),
        rr("s", [], [w(), n], lit(A("isa", X(kid(1)), E1), A("learn_grammar_rule", i()), store(yes))),
        rr("s", [], [w()], lit(store(yes)), exe=lit(A("let", E1, i()), A("learn_grammar_rule", E1))),
        rr("s", [], [n, w()], lit(A("$disjunction", L(L(A("isa", X(kid(1)), "a"), A("learn_grammar_rule", i())), L(A("learn_grammar_rule", i()), store(yes)))))),
        rr("s", [], [w()], lit(A("not", L(A("learn_grammar_rule", i()))), A("learn_grammar_rule", i()))),
        rr("s", [], [w(), w()], lit(A("learn_rule", A("likes", E1, "a"), L(A("isa", E1, "b"), A("learn_grammar_rule", i())))), dlg=lit(A("learn_grammar_rule", i()))),
        rr("s", ["E1"], [w()], lit(A("likes", E1, E2))),
        rr("s", [], [w()], lit(store(A("learn_grammar_rule", i())), A("learn_grammar_rule", rng.choice([E1, "x", L(), i()])))),
        rr("s", [], [w()], lit(A("find_all", RV("E1"), L(A("isa", E1, E2), A("learn_grammar_rule", i())), V("E3")))),
        rr("s", [], [C("r", "s"), w()], cat(kid(1), lit(A("learn_grammar_rule", i())))),
    ]
    for r in rng.sample(teach, rng.choice([2, 3])): add(r, rng.random() < .12)
    return g


def unary_loop(r): yield len(r["rhs"]) == 1 and r["rhs"][0]["t"] == "r" and r["rhs"][0]["p"] == r["lhs"]


def prune(g):
    while True:
        have = {(r["lhs"], len(r["ar"])) for r in g}
        g2 = [r for r in g if all(c["t"] != "r" or (c["p"], len(c["ar"])) in have for c in r["rhs"])]
        if len(g2) == len(g): return g
        g = g2


def derive(rng, g, cat, n, depth):
    rs = [r for r in g if r["lhs"] == cat and len(r["ar"]) == n]
    if not rs: return None
    rel = lambda r: sum(c["t"] == "r" for c in r["rhs"])
    r = min(rs, key=lambda r: (rel(r), rng.random())) if depth <= 0 else rng.choice(rs)
    out = []
    for c in r["rhs"]:
        if c["t"] == "w": out.append(uncodes(c["f"]))
        elif c["t"] == "x": out.append(rng.choice(["a", "b", "ab", "c", "cab"] if c["p"] != "[a-z]" else ["a", "b", "c"]))
        else:
            if depth < -3: return None
            x = derive(rng, g, c["p"], len(c["ar"]), depth - 1)
            if x is None: return None
            out.append(x)
    return " ".join(out)


def rand_lessons(rng, g):
    """sentences that need a rule that is taught, and one that teaches it"""
    teaches = lambda r: [int(x) for x in re.findall('{"k": "g", "i": (\\d+)}', json.dumps([r["sem"], r["exe"]]))]
    teachers = [r for r in g if teaches(r) and not r.get("late")]
    if not teachers: return []
    r = rng.choice(teachers)
    texts = [with_rule(rng, g, g[rng.choice(teaches(r)) - 1]) for _ in range(2)]
    texts.insert(rng.choice([0, 1, 1]), with_rule(rng, [x for x in g if not x.get("late")], r))
    return [t for t in texts if t is not None]


def with_rule(rng, g, r):
    """a sentence that needs this rule"""
    for _ in range(10):
        if r["lhs"] == "s": h = [x for x in g if x["lhs"] != "s"] + [r]
        else: h = [x for x in g if (x["lhs"], len(x["ar"])) != (r["lhs"], len(r["ar"]))] + [r]
        ar = rng.choice([len(x["ar"]) for x in h if x["lhs"] == "s"])
        t = derive(rng, h, "s", ar, rng.choice([1, 1, 2]))
        if t is not None and len(t) <= 26: return t
    return None


def rand_text(rng, g):
    rs = [r for r in g if r["lhs"] == "s"]
    for _ in range(6):
        t = derive(rng, g, "s", len(rng.choice(rs)["ar"]), rng.choice([1, 1, 2, 3])) if rs else "a"
        if t is not None and len(t) <= 26: break
    else: t = "a a"
    t = t or ""
    r = rng.random()
    if r < .07: t = t.upper() if rng.random() < .5 else t.capitalize()
    elif r < .12: t = rng.choice(["", " ", "zz 9", "?", t + " 9", "9 " + t])
    elif r < .19:
        ws = t.split(" "); rng.shuffle(ws); t = " ".join(ws)
    elif r < .24: t = " ".join(t.split(" ")[:-1])
    elif r < .28: t = t.replace(" ", "  ")
    return t


def rand_rules(rng):
    rules = [wrule("s", [], [W("yes")], [A("output_type", "yes")]),
             wrule("s", [], [R("text", ["E1"]), R("more", [], True)], [A("output_type", "value"), A("output_value", E1)]),
             wrule("s", [], [W("no")], [A("output_type", "no")]),
             wrule("s", [], [W("Sorry")], [A("output_type", "not_understood")]),
             wrule("s", [], [W("Nothing")], [A("output_type", "no_sentence")]),
             wrule("s", [], [W("What:"), R("text", ["E1"])], [A("output_type", "unknown_word"), A("output_unknown_word", E1)]),
             wrule("s", [], [W("E1")], [A("output_type", "e1")]),
             wrule("s", [], [W("E2"), R("value", ["E1"])], [A("output_type", "e2"), A("output_e2", E1)])]
    if rng.random() < .4: rng.shuffle(rules)
    for _ in range(rng.choice([0, 0, 0, 1])): rules.pop(rng.randrange(len(rules)))
    r = rng.random()
    if r < .7: rules.append(wrule("s", [], [W("OK")]))
    elif r < .8: rules.append(wrule("s", [], [R("value", ["E1"])], [A("isa", "a", E1)]))
    rules.append(wrule("more", [], [W("(more)")], [A("output_value", E1), A("isa", E1, E2)]))
    return rules


def rand_world(rng, safe):
    names, kinds = ["a", "b", "c", "ab"], ["a", "b"]
    pr = lambda k, x, y: [[enc(rng.choice(x)), enc(rng.choice(y))] for _ in range(rng.randint(0, k))]
    rels = {p: {"ar": n, "w": True} for p, n in BUILTIN.items()}
    rels.update({"output_e1": {"ar": 0, "w": True}, "output_e2": {"ar": 1, "w": True}})
    buf = {"kind": "table", "impl": "buffer", "rels": rels, "rows": {p: [] for p in rels}}
    facts = {"kind": "table", "impl": rng.choice(["sqlite", "memory"]) if safe else "simple",
             "rels": {"isa": {"ar": 2, "w": True}, "rel": {"ar": 2, "w": True}},
             "rows": {"isa": pr(4, names, kinds), "rel": pr(4, names, names)}}
    infer = {"kind": "infer", "impl": rng.choice(["obj", "text"]), "rules": [
        {"head": A("known", V("X"), V("Y")), "body": [A("rel", V("X"), V("Y"))]},
        {"head": A("known", V("X"), V("Y")), "body": [A("rel", V("Y"), V("X")), A("isa", V("Y"), V("Z"))]}]}
    if rng.random() < .4: infer["rules"].append({"head": A("likes", V("X"), "a"), "body": [A("isa", V("X"), "b")]})
    ctx = {"kind": "ctx", "rels": {"dialog_isa": {"ar": 2, "w": True}, "context": {"ar": 1, "w": True}}, "rows": {"dialog_isa": [], "context": []}}
    mods = [buf, facts, infer, ctx]
    rng.shuffle(mods)
    return mods, mods.index(buf) + 1


def rand_pipe(rng, g):
    kinds = ["one", "one", "one", "all", "all", "first"]
    b = lambda role, name, procs, **kw: dict({"kind": rng.choice(kinds), "sel": False, "role": role, "name": name, "procs": procs, "locales": [], "check": ""}, **kw)
    multi = len(g) > 1
    pipe = []
    if multi:
        locs = list(g)
        pipe.append(b("select", "Language selector", {"any": "sel"}, sel=True, locales=rng.sample(locs, len(locs))))
        pipe.append(b("parse", "Multilingual Language selector", {x: x for x in locs}))
    else: pipe.append(b("parse", "Parser", {"any": list(g)[0]}))
    pipe.append(b("compose", "Composer", {"any": "composer"}, opt=rng.choice(["", "", "", "", "arrange", "basic" if rng.random() < .4 else ""])))
    pipe.append(b("execute", "Executor", {"any": "executor"}))
    if rng.random() < .5: pipe.append(b("check", rng.choice(["Checker", "Executor", "Parser"]), {"any": "checker"}, check=rng.choice(["some", "none", "single", "never", "always", "some", "single"])))
    if rng.random() < .06: pipe = pipe[:-1] if rng.random() < .5 else pipe[:pipe.index(next(x for x in pipe if x["role"] == "execute"))]
    if rng.random() < .02: pipe = pipe[:1 + multi]
    return pipe


OFF = {"which": "last", "last": False, "prod": False, "sel": [], "stats": False, "calls": []}


def rand_conf(rng, pipe, prev=None):
    """logger settings, after those of prev"""
    c = copy.deepcopy(prev or OFF)
    c["calls"] = []
    for _ in range(rng.choice([1, 2, 3, 4]) if prev is None else rng.choice([1, 2])):
        r = rng.random()
        if r < .25: c["calls"].append(["log_all_tests"]); c["which"] = "all"
        elif r < .32: c["calls"].append(["log_only_last_test"]); c["which"] = "last"
        elif r < .39: c["calls"].append(["log_no_tests"]); c["which"] = "none"
        elif r < .55: c["calls"].append(["products", []]); c["prod"] = True; c["sel"] = []
        elif r < .75:
            s = [rng.randint(1, len(pipe)) for _ in range(rng.choice([1, 1, 2]))]
            c["calls"].append(["products", s]); c["prod"] = True; c["sel"] = s
        elif r < .88: c["calls"].append(["stats"]); c["stats"] = True
        else:
            x = rng.random() < .7
            c["calls"].append(["last", x]); c["last"] = x
    return c


def rand_case(rng, logs):
    safe = rng.random() < .3
    while True:
        g = {"en": rand_grammar(rng, safe)}
        if rng.random() < .15: g["nl"] = rand_grammar(rng, safe)
        if all(any(r["lhs"] == "s" for r in x) for x in g.values()): break
    mods, ob = rand_world(rng, safe)
    pipe = rand_pipe(rng, g)
    teaching = rng.random() < .25
    if teaching:
        name = rng.choice(list(g))
        add_teaching(rng, g[name])
        at = rng.randint(0, len(mods))
        mods.insert(at, {"kind": "grammar", "g": name, "learned": []})
        if at < ob: ob += 1
    ops = []
    testing = logs and rng.random() < .4
    texts = []
    for _ in range((rng.choice([2, 3, 5]) if logs else rng.choice([3, 4, 6, 8])) - teaching):
        t = rng.choice(texts) if texts and rng.random() < .15 else rand_text(rng, g[rng.choice(list(g))])
        texts.append(t)
        ops.append({"op": "enter", "text": t})
        if testing or rng.random() < .75: ops.append({"op": "read"})
    if teaching:
        for t in rand_lessons(rng, g[name]):
            ops.append({"op": "enter", "text": t})
            if testing or rng.random() < .75: ops.append({"op": "read"})
    if texts and testing and len(texts) > 1 and rng.random() < .35:
        # the same question again at the end
        ops += [{"op": "enter", "text": rng.choice(texts[:-1])}, {"op": "read"}]
    runs = [OFF]
    if logs:
        conf = None
        if not testing:
            conf = rand_conf(rng, pipe)
            if rng.random() < .3:
                ops.insert(rng.randrange(len(ops)), {"op": "cfg", "conf": rand_conf(rng, pipe, conf)})
            runs.append(conf)
            if rng.random() < .3 and len(ops) < 8 and not any(o["op"] == "cfg" for o in ops): runs.append(rand_conf(rng, pipe))
        else:
            for _ in range(rng.choice([1, 1, 2])):
                n = sum(o["op"] == "enter" for o in ops)
                c = rand_conf(rng, pipe)
                c["calls"] = [x for x in c["calls"] if x[0] != "last"]; c["last"] = False
                c["tests"] = {"wrong": [rng.randrange(n)] if rng.random() < .3 else [], "profile": rng.random() < .1}
                runs.append(c)
    return {"g": g, "mods": mods, "ob": ob, "rules": rand_rules(rng), "pipe": pipe, "ops": ops, "runs": runs,
            "judge": ["trees"] if not logs else []}


def cases_C24(rng, tier): return [rand_case(rng, False) for _ in range(800 if tier == "quick" else 7000)]
def cases_C25(rng, tier): return [rand_case(rng, True) for _ in range(600 if tier == "quick" else 5000)]


def replay_dialogues(behaviours, rng, tier):
    """The dialogues of MC_Dialog."""
    head = [b for b in behaviours if "g" in b][0]
    bs = sorted((b for b in behaviours if "ops" in b), key=str)
    bs = rng.sample(bs, min(len(bs), 180 if tier == "quick" else 2500))
    out = []
    for b in bs:
        mods = copy.deepcopy(head["mods"])
        mods[0]["impl"], mods[1]["impl"], mods[2]["impl"] = "buffer", rng.choice(["simple", "memory", "sqlite"]), rng.choice(["obj", "text"])
        mods[0]["rels"] = dict({p: {"ar": n, "w": True} for p, n in BUILTIN.items()}, **mods[0]["rels"])
        for m in mods[:2]: m["rows"] = {p: [] for p in m["rels"]}
        pipe = [dict(x, kind=b["kind"] if x["role"] == "parse" else x["kind"]) for x in head["pipe"]]
        ops = [{"op": "enter", "text": uncodes(o["text"])} if o["op"] == "enter" else {"op": "read"} for o in b["ops"]]
        out.append({"g": {"parser": copy.deepcopy(head["g"])}, "mods": mods, "ob": 1, "rules": copy.deepcopy(head["rules"]), "pipe": pipe, "ops": ops,
                    "runs": [OFF], "judge": ["trees"]})
    return out


def P(cases, **kw):
    d = dict(cases=cases, run=run, trace="Trace_Dialog", nontrivial=nontrivial, mc=[])
    d.update(kw)
    return d


PROPS = {"C24": P(cases_C24, mc=[{"module": "MC_Dialog", "cfg": "MC_Dialog_q", "replay": replay_dialogues, "workers": "4"},
                                 {"module": "MC_Dialog", "cfg": "MC_Dialog_j", "replay": replay_dialogues, "only": "quick", "workers": "4"},
                                 {"module": "MC_Dialog", "cfg": "MC_Dialog_t", "replay": replay_dialogues, "tier": "thorough", "workers": "8", "timeout": 800}]), "C25": P(cases_C25)}
