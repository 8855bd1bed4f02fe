"""C07, C08: semantic composition."""
from common import codes, uncodes, enc, dec, V, RV, L, T, A
from props.parse import render_syn, C

SLOTMARK = {"Range": "__$Range$__", "Body": "__$Body$__", "Extra": "__$Extra$__"}

# ------------------------------------------------------------------ running


LATE = {}  # grammar rules that can be learned, by number


def evaluate(x, vals):
    """Evaluates an expression the way a grammar's lambda would."""
    from richard.core.constants import Range, Body
    from richard.processor.parser.helper.grammar_functions import apply
    from richard.type.SemanticTemplate import SemanticTemplate
    slot = {"Range": Range, "Body": Body, "Extra": [SLOTMARK["Extra"]]}

    def term(t):
        if t["k"] == "l": return [term(y) for y in t["l"]]
        if t["k"] == "t": return tuple(term(y) for y in t["t"])
        if t["k"] == "x": return evaluate(t["x"], vals)
        if t["k"] == "g": return LATE[t["i"]]
        return dec(t)
    e = x["e"]
    if e == "lit": return term(x["v"])
    if e == "str": return x["s"]
    if e == "child": return vals[x["i"] - 1]
    if e == "slot": return slot[x["s"]]
    if e == "cat":
        out = []
        for y in x["xs"]: out = out + evaluate(y, vals)
        return out
    if e == "tmpl": return SemanticTemplate([slot[s] for s in x["slots"]], evaluate(x["x"], vals))
    if e == "apply": return apply(evaluate(x["f"], vals), *[evaluate(y, vals) for y in x["xs"]])
    raise ValueError(e)


def build(g, semmap):
    rules = []
    for k, r in enumerate(g):
        d = {"syn": render_syn(r)}
        fn = (lambda r: lambda *vals: evaluate(r["sem"], vals))(r)
        if r["sem"]["e"] != "none":
            d["sem"] = fn
        if r["exe"]["e"] != "none":
            d["exec"] = (lambda r: lambda *vals: evaluate(r["exe"], vals))(r)
        if r["dlg"]["e"] != "none":
            if r.get("dlgconst"):
                d["dialog"] = evaluate(r["dlg"], [])
            else:
                d["dialog"] = (lambda r: lambda *vals: evaluate(r["dlg"], vals))(r)
        rules.append(d)
    return rules


def enc_tree(node, index):
    if not node.children:
        t = {"word-form": "w", "reg-exp": "x"}.get(node.rule.antecedent.position_type, "?")
        return {"r": 0, "t": t, "s": node.form, "c": []}
    # every rule starts with a word of its own
    return {"r": index[node.children[0].form], "t": "r", "s": "", "c": [enc_tree(c, index) for c in node.children]}


def tenc(v):
    t = enc(v)
    def marks(t):
        if t["k"] == "s" and t["s"] in SLOTMARK.values():
            return {"k": "slot", "s": {v: k for k, v in SLOTMARK.items()}[t["s"]]}
        if t["k"] == "l": return {"k": "l", "l": [marks(x) for x in t["l"]]}
        if t["k"] == "t": return {"k": "t", "t": [marks(x) for x in t["t"]]}
        return t
    return marks(t)


def run(case):
    from richard.processor.parser.helper.SimpleGrammarRulesParser import SimpleGrammarRulesParser
    from richard.processor.parser.BasicParser import BasicParser
    from richard.processor.semantic_composer.SemanticComposer import SemanticComposer
    from richard.entity.SentenceRequest import SentenceRequest
    from richard.entity.Variable import Variable
    g = case["g"]
    grammar = SimpleGrammarRulesParser().parse_read_grammar(build(g, None))
    index = {uncodes(r["rhs"][0]["f"]): k + 1 for k, r in enumerate(g)}
    parser = BasicParser(grammar)
    composer = SemanticComposer(parser)
    events = [{"op": "grammar", "g": [{"ar": r["ar"], "rhs": expand_rhs(r["rhs"]), "sem": r["sem"],
                                      "exe": r["exe"], "dlg": r["dlg"]} for r in g]}]
    for text in case["texts"]:
        req = SentenceRequest(text)
        products = parser.process(req).products
        for p in products[:3]:
            req.set_current_product(parser, p)
            ev = {"op": "compose", "judge": case["judge"], "tree": enc_tree(p.parse_tree, index)}
            try:
                r = composer.process(req).products[0]
                ev["out"] = {"e": False, "sem": tenc(r.get_semantics_last_iteration()), "exe": tenc(list(r.executable)),
                             "dlg": tenc(list(r.inferences)), "roots": [enc(Variable(n)) for n in r.return_variables]}
            except Exception as e:
                ev["out"] = {"e": True, "why": repr(e)[:200], "sem": tenc([]), "exe": tenc([]), "dlg": tenc([]), "roots": []}
            events.append(ev)
    if case.get("long"):
        # a long dialogue: the variables of many sentences
        names = []
        texts = case["texts"]
        for i in range(case["long"]):
            req = SentenceRequest(texts[i % len(texts)])
            products = parser.process(req).products
            if not products: continue
            req.set_current_product(parser, products[0])
            try: r = composer.process(req).products[0]
            except Exception: continue
            names.append(sorted(set(variables(r.get_semantics_last_iteration())) | set(r.return_variables)))
            if sum(map(len, names)) > 6000: break
        events.append({"op": "long", "names": names})
    return events


def variables(x):
    from richard.entity.Variable import Variable
    if isinstance(x, Variable): return [x.name]
    if isinstance(x, (list, tuple)): return [n for y in x for n in variables(y)]
    return []


def expand_rhs(rhs):
    out = []
    for k, c in enumerate(rhs):
        if k and c["j"] == " ": out.append({"t": "w", "ar": []})
        out.append({"t": c["t"], "ar": c["ar"]})
    return out


def nontrivial(case, events):
    return sum(e["op"] == "compose" for e in events) > 0


# ------------------------------------------------------------------ generating

NAMES = ["E1", "E2", "E3", "E4", "E5"]


def rand_case(rng, judge, pmissing=0.0):
    cats = {"s": ("L", rng.choice([0, 1, 1, 2]))}
    for c in ["ca", "cb", "cc", "cd", "ce"][:rng.randint(2, 5)]:
        cats[c] = (rng.choice(["L", "L", "T1", "T1", "T2", "T3", "S"]), rng.randint(0, 2))
    g = []

    def rule(cat, leaf):
        typ, n = cats[cat]
        ar = rng.sample(NAMES, n) if rng.random() < .5 else NAMES[:n]
        rhs = [C("w", f=f"w{len(g)}")]
        kids = []   # types of the constituents with a meaning
        loc = rng.sample(NAMES, rng.randint(2, 4)) + ar
        if not leaf:
            for _ in range(rng.choice([1, 1, 2, 2, 3])):
                c = rng.choice(list(cats)[1:])
                rhs.append(C("r", c, [rng.choice(loc) for _ in range(cats[c][1])]))
                kids.append(cats[c][0])
        if rng.random() < (.5 if typ == "S" else .15):
            rhs.append(C("x", "[a-z]+" if rng.random() < .8 else "[ _]", j=" ")); kids.append("S")
        # the order of the constituents is free
        tail = list(zip(rhs[1:], kids)); rng.shuffle(tail)
        rhs = [rhs[0]] + [t[0] for t in tail]; kids = [t[1] for t in tail]
        if rng.random() < .3: rhs.insert(rng.randint(1, len(rhs)), C("w", f="of"))
        first = rhs[0]
        # a token may be a space
        rhs = [dict(c, j="+") if "[ _]" in (c["p"], rhs[i]["p"]) else c for i, c in enumerate(rhs[1:])]
        rhs.insert(0, first)
        formals = sorted(set(ar) | {a for c in rhs for a in c["ar"]})
        private = [x for x in NAMES if x not in formals]
        names = formals + private

        used = set()

        def var():
            return V(rng.choice(names))

        def kid(t):
            # mostly once, or else meanings explode
            ks = [i + 1 for i, k in enumerate(kids) if k == t and (t == "S" or i + 1 not in used or rng.random() < .06)]
            return {"e": "child", "i": rng.choice(ks)} if ks else None

        def use(x):
            used.add(x["i"])
            return x

        def lexpr(depth, slots):
            """an expression that is a list"""
            xs = []
            for _ in range(rng.choice([1, 1, 2]) if depth else 1):
                r = rng.random()
                k = kid("L")
                t1, t2, t3 = kid("T1"), kid("T2"), kid("T3")
                free = [s for s in slots if s not in used or rng.random() < .1]
                if r < .45 and k: xs.append(use(k))
                elif r < .65 and t1 and depth: xs.append({"e": "apply", "f": use(t1), "xs": [lexpr(depth - 1, slots)]})
                elif r < .8 and t2 and depth: xs.append({"e": "apply", "f": use(t2), "xs": [lexpr(depth - 1, slots), lexpr(depth - 1, slots)]})
                elif r < .86 and t3 and depth: xs.append({"e": "apply", "f": use(t3), "xs": [lexpr(depth - 1, slots) if i == 2 else lexpr(0, slots) for i in range(3)]})
                elif r < .92 and free:
                    xs.append({"e": "slot", "s": rng.choice(free)}); used.add(xs[-1]["s"])
                else: xs.append({"e": "lit", "v": L(*[atom(depth, slots) for _ in range(rng.choice([0, 1, 1, 1, 2]))])})
            return xs[0] if len(xs) == 1 and rng.random() < .7 else {"e": "cat", "xs": xs}

        def arg(depth, slots):
            r = rng.random()
            s = kid("S")
            if r < .12 and s: return {"k": "x", "x": s}
            if r < .2: return rng.choice([enc("c"), enc(5), enc(0), enc("")])
            if r < .3 and depth: return {"k": "x", "x": lexpr(depth - 1, slots)}
            if r < .36 and depth: return T("tup", arg(0, []), arg(0, []))
            if r < .42 and formals: return RV(rng.choice(formals))
            return var()

        def atom(depth, slots):
            if rng.random() < .08 and depth:
                return A("$disjunction", L(L(atom(0, []), atom(0, [])), L(atom(0, []))))
            return A(rng.choice(["p", "q", "r", "not", "all"]), *[arg(depth, slots) for _ in range(rng.randint(0, 3))])
        if typ == "L": sem = lexpr(2, [])
        elif typ == "S": sem = kid("S") or {"e": "str", "s": rng.choice(["river", "it's", "E1"])}
        else:
            slots = ["Body"] if typ == "T1" else ["Range", "Body"] if typ == "T2" else ["Extra", "Range", "Body"]
            first = lexpr(2, slots)
            body = {"e": "cat", "xs": [first] + [{"e": "slot", "s": s} for s in slots if s not in used or rng.random() < .1]}
            sem = {"e": "tmpl", "slots": slots, "x": body}
        none = {"e": "none"}
        used = set()
        exe = lexpr(1, []) if rng.random() < .25 else none
        dlg, const = none, False
        r = rng.random()
        if r < .12:
            dlg, const = {"e": "lit", "v": L(*[A("d", var(), RV(rng.choice(formals)) if formals else enc(1)) for _ in range(rng.randint(1, 2))])}, True
        elif r < .25:
            used = set()
            dlg = lexpr(1, [])
        if rng.random() < pmissing: sem = none
        g.append({"lhs": cat, "ar": ar, "rhs": rhs, "sem": sem, "exe": exe, "dlg": dlg, "dlgconst": const})
        return len(g) - 1
    for c in cats:
        rule(c, True)
        for _ in range(rng.choice([1, 1, 2])): rule(c, False)

    def text(cat, depth):
        rs = [k for k, r in enumerate(g) if r["lhs"] == cat]
        rel = lambda k: sum(c["t"] == "r" for c in g[k]["rhs"])
        if depth <= 0: k = min(rs, key=rel)
        else: k = rng.choice(rs if rng.random() < .2 else [k for k in rs if rel(k)] or rs)
        out = ""
        for i, c in enumerate(g[k]["rhs"]):
            if i and c["j"] == " ": out += " "
            if c["t"] == "w": out += "".join(map(chr, c["f"]))
            elif c["t"] == "x": out += rng.choice(["red", "x", "big"] if c["p"] == "[a-z]+" else [" ", " ", "_"])
            else: out += text(c["p"], depth - 1)
        return out
    texts = []
    for _ in range(rng.randint(2, 4)):
        for _ in range(8):
            t = text("s", rng.randint(1, 3))
            if len(t) < 90: texts.append(t); break
    if len(texts) > 1 and rng.random() < .3: texts.append(texts[0])
    return {"g": g, "texts": texts, "judge": judge}


def ambiguous(rng, case):
    return case


def cases_C07(rng, tier):
    out = [rand_case(rng, ["variables"]) for _ in range(900 if tier == "quick" else 8000)]
    for c in out[:4 if tier == "quick" else 40]: c["long"] = 1500
    return out


def cases_C08(rng, tier):
    n = 900 if tier == "quick" else 8000
    return [rand_case(rng, ["structure"], .12 if i % 5 == 0 else 0) for i in range(n)]


def replay_trees(judge):
    """The trees of MC_Compose, in dialogues of a few sentences."""
    def replay(behaviours, rng, tier):
        g = [b["g"] for b in behaviours if "g" in b][0]
        texts = sorted(b["text"] for b in behaviours if "text" in b)
        texts = [t for t in texts if len(t) < 110]
        texts = rng.sample(texts, min(len(texts), 240 if tier == "quick" else 3000))
        return [{"g": g, "texts": texts[i:i + 4], "judge": judge} for i in range(0, len(texts), 4)]
    return replay


def P(cases, judge, **kw):
    rep = replay_trees(judge)
    d = dict(cases=cases, run=run, trace="Trace_Compose", nontrivial=nontrivial,
             mc=[{"module": "MC_Compose", "cfg": "MC_Compose_q", "replay": rep},
                 {"module": "MC_Compose", "cfg": "MC_Compose_t", "replay": rep, "tier": "thorough", "timeout": 800}])
    d.update(kw)
    return d


PROPS = {"C07": P(cases_C07, ["variables"]), "C08": P(cases_C08, ["structure"])}
