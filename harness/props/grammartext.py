"""C26: reading grammar rules."""
import re
from common import codes, uncodes

KEYS = ["sem", "exec", "if", "format", "post", "dialog", "boost"]

# ------------------------------------------------------------------ running


def run(case):
    from richard.processor.parser.helper.SimpleGrammarRulesParser import SimpleGrammarRulesParser
    from richard.module.GrammarModule import GrammarModule
    from richard.core.Model import Model
    from richard.core.Solver import Solver
    labels = {}

    def value(key, label):
        if key == "boost": return int(label)
        if key == "dialog" and label.startswith("["): v = [] if label == "[]" else [("fact", label)]
        else: v = eval("lambda: %r" % label)
        labels[id(v)] = (v, label)
        return v

    def label(v):
        if v is None: return "none"
        if isinstance(v, list) and not v: return "[]"
        if isinstance(v, (int, float)): return str(v)
        return labels[id(v)][1] if id(v) in labels else "other: " + repr(v)[:50]

    def make(r):
        d = {}
        for kv in r["kv"]: d[kv["k"]] = value(kv["k"], kv["v"])
        if r["syn"]: d["syn"] = uncodes(r["syn"][0])
        return d

    def constituent(c):
        t = {"relation": "r", "word-form": "w", "reg-exp": "x"}.get(c.position_type, repr(c.position_type))
        return {"t": t, "c": codes(c.predicate), "ar": [codes(a) for a in c.arguments], "o": t == "r" and bool(c.optional)}

    def form(r):
        return {"ar": [codes(a) for a in r.antecedent.arguments], "rhs": [constituent(c) for c in r.consequents],
                "sem": label(r.sem), "exec": label(r.exec), "post": label(r.post), "dialog": label(r.dialog), "boost": label(r.boost)}

    def found(grammar, rules):
        names = {w for r in rules if r["syn"] for w in re.findall(r"\w+", uncodes(r["syn"][0]))}
        out = []
        for name in sorted(names):
            for n in range(9):
                rs = grammar.find_rules(name, n)
                if rs: out.append({"lhs": codes(name), "n": n, "forms": [form(r) for r in rs]})
        return out

    events = [{"op": "init"}]
    for write, rules, learn in case["runs"]:
        parser = SimpleGrammarRulesParser()
        ds = [make(r) for r in rules]
        before = [dict(d) for d in ds]
        ev = {"op": "read", "write": write, "rules": rules, "found": []}
        try:
            grammar = parser.parse_write_grammar(ds) if write else parser.parse_read_grammar(ds)
            ev["ok"] = True
        except Exception as e:
            ev["ok"] = False; ev["why"] = repr(e)[:200]
        ev["same"] = ds == before
        if ev["ok"]: ev["found"] = found(grammar, rules)
        events.append(ev)
        if not ev["ok"]: continue
        solver = Solver(Model([GrammarModule(grammar)]))
        seen = list(rules)
        for r in learn:
            seen.append(r)
            ev = {"op": "learn", "rules": [r]}
            try:
                ev["ok"] = len(solver.solve([("learn_grammar_rule", make(r))])) == 1
            except Exception as e:
                ev["ok"] = False; ev["why"] = repr(e)[:200]
            ev["found"] = found(grammar, seen)
            events.append(ev)
    return events


def nontrivial(case, events): return any(e["op"] != "init" and (e.get("found") or not e.get("ok")) for e in events)


# ------------------------------------------------------------------ generating

CATS = ["s", "np", "noun", "S", "x_1", "_p", "7", "été", "text", "E1", "aB"]
VARS = ["E1", "E2", "X", "T_1", "List", "XY", "E99"]
WORDS = ["a", "it's", 'say "x"', "the book", "?", "->", "+", "~", "/", "(", "np(E1)", ",", ".", "é", "Aa", "don\\t", "a\\'b", 'a\\"b', " ", "  ", "\\", "x?", "a+b", " a", "b ", "\\ta\\n", "'", '"', "\n", "\\n", "#", "$"]
EXPS = ["\\w+", "[a-z]+", "a/b", "/", "\\d+(-\\d+)*", "'", '"', "a|b", " ", "[^/]+", "\\.", "x?", "(a)", "a+", "\\w[\\w\\d]+(-[\\w\\d]+)*", "a\\\\/"]
SOUP = ["s", "np", "(", ")", ",", "->", "+", "~", "?", "E1", "x", "'a'", '"b"', "/c/", "s()", "np(E1)", "7", "-> ->"]


def quoted(rng, v, quotes):
    qs = [q for q in quotes if not (v.endswith("\\") or ("\\" + q) in v)]
    if not qs: return None
    q = rng.choice(qs)
    return q + v.replace(q, "\\" + q) + q


def atom(rng, cats=CATS):
    n = rng.choice([0, 1, 1, 2, 2, 3, 6])
    out = [rng.choice(cats), "("]
    for i in range(n): out += ([","] if i else []) + [rng.choice(VARS)]
    if n and rng.random() < .03: out.append(",")
    return out + [")"]


def rule_tokens(rng, write):
    out = atom(rng, CATS[:3] if rng.random() < .8 else CATS) + ["->"]
    opts = 0
    for i in range(rng.choice([1, 1, 2, 2, 3, 3, 4, 5, 8, 14])):
        if i: j = rng.choice([[], [], ["+"], ["~"] if opts < 4 else []]); opts += j == ["~"]; out += j
        r = rng.random()
        if r < .4: out += atom(rng) + (["?"] if write and rng.random() < .3 else [])
        elif r < .55: out += [quoted(rng, rng.choice(EXPS), "/") or "/z/"]
        else:
            o = opts < 4 and rng.random() < .35; opts += o
            out += [quoted(rng, rng.choice(WORDS), "'\"") or "'w'"] + (["?"] if o else [])
    return out


def join(rng, toks):
    style = rng.choice(["tight", "spaced", "wild"])
    out = ""
    for t in toks:
        sep = "" if style == "tight" else rng.choice(["", " "]) if style == "spaced" else rng.choice(["", " ", "\n", "\t", "   ", " \r\n "])
        if not sep and out and (out[-1].isalnum() or out[-1] == "_") and (t[0].isalnum() or t[0] == "_"): sep = " "
        out += sep + t
    return out + (rng.choice(["", " ", "\n"]) if style == "wild" else "")


def text(rng, write):
    toks = rule_tokens(rng, write)
    for _ in range(rng.choice([0, 0, 0, 0, 1, 1, 2])):
        i = rng.randrange(len(toks) + 1); r = rng.random()
        if r < .3 and i < len(toks): del toks[i]
        elif r < .6: toks.insert(i, rng.choice(SOUP))
        elif r < .75 and i < len(toks): toks[i] = rng.choice(SOUP)
        elif r < .9 and len(toks) > 1: j = rng.randrange(len(toks) - 1); toks[j], toks[j + 1] = toks[j + 1], toks[j]
        else: toks = toks[:i]
    return join(rng, toks) if toks else "s"


def near(rng, r):
    if not r["syn"]: return []
    t = list(r["syn"][0])
    for _ in range(20):
        i, j = rng.randrange(len(t)), rng.randrange(len(t))
        if all(chr(t[k]).isalnum() for k in (i, j)) and (t[i] in range(65, 91)) == (t[j] in range(65, 91)): t[i], t[j] = t[j], t[i]
    return [t]


N = [0]


def rule(rng, write, broken=.0, good=False):
    t = join(rng, rule_tokens(rng, write)) if good or rng.random() < .6 else text(rng, write)
    kv = []
    for k in KEYS:
        if rng.random() < .35:
            N[0] += 1
            kv.append({"k": k, "v": str(rng.choice([0, 1, -1, 2, -100, 5])) if k == "boost" else
                       rng.choice(["[]", "[%d]" % N[0], "d%d" % N[0]]) if k == "dialog" else "%s%d" % (k, N[0])})
    rng.shuffle(kv)
    return {"syn": [] if rng.random() < broken else [codes(t)], "kv": kv}


def cases(rng, tier):
    N[0] = 0
    out = []
    for _ in range(300 if tier == "quick" else 5000):
        runs = []
        for _ in range(4):
            write = rng.random() < .4
            good = rng.random() < .7
            rules = [rule(rng, write, .02, good) for _ in range(rng.choice([0, 1, 1, 1, 2, 3, 5]))]
            if rules and rng.random() < .2: rules.append(dict(rules[0], kv=rules[0]["kv"][:1]))
            if rules and rng.random() < .2: rules.append(dict(rules[0], syn=near(rng, rules[0])))
            learn = [] if write or rng.random() < .5 else [rule(rng, False, .1) for _ in range(rng.choice([1, 2, 3]))]
            # a text that differs only in one of its letters
            if learn and rules and rng.random() < .4: learn.insert(rng.randrange(len(learn) + 1), dict(rng.choice(learn), syn=near(rng, rng.choice(rules + learn))))
            # the same text once more, saying something else
            if learn and rules and rng.random() < .4: learn.insert(rng.randrange(len(learn) + 1), dict(rng.choice(rules), kv=[{"k": "sem", "v": "again"}]))
            runs.append([write, rules, learn])
        out.append({"runs": runs})
    return out


def replay(behaviours, rng, tier):
    texts = sorted({tuple(b["text"]) for b in behaviours})
    if tier == "quick": texts = rng.sample(texts, min(len(texts), 3000))
    runs = [[w, [{"syn": [list(t)], "kv": []}], []] for t in texts for w in (False, True)]
    return [{"runs": runs[i:i + 60]} for i in range(0, len(runs), 60)]


PROPS = {"C26": dict(cases=cases, run=run, trace="Trace_GrammarText", nontrivial=nontrivial,
                     mc=[{"module": "MC_GrammarText", "replay": replay},
                         {"module": "MC_GrammarText", "cfg": "MC_GrammarText_t", "tier": "thorough", "replay": replay}])}
