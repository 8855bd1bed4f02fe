"""C01-C05: grammars, parsing, learning grammar rules, failure reports."""
import json
import re
from common import codes, uncodes, enc

# ------------------------------------------------------------------ rendering and running


def quote(s, q="'"):
    return q + s.replace(q, "\\" + q) + q


def render_syn(r):
    def rel(c):
        return c["p"] + "(" + ", ".join(c["ar"]) + ")"
    out = rel({"p": r["lhs"], "ar": r["ar"]}) + " ->"
    for k, c in enumerate(r["rhs"]):
        j = c["j"] if k else " "
        out += {" ": " ", "+": "+", "~": " ~ "}[j] if r.get("tight") or j != "+" else " + "
        if c["t"] == "r":
            out += rel(c)
        elif c["t"] == "x":
            out += "/" + c["p"].replace("/", "\\/") + "/"
        else:
            out += quote(uncodes(c["f"]), c.get("q", "'")) + ("?" if c["o"] else "")
    return out


def simple_rule(r, k, semmap, unit=1):
    sem = (lambda k: (lambda *a: [("rule", k)]))(k)
    semmap[id(sem)] = (k, sem)
    d = {"syn": render_syn(r), "sem": sem}
    if r.get("boost") or r.get("explicit_boost"):
        d["boost"] = r["boost"] * unit
    return d


def enc_tree(node, semmap):
    if not node.children:
        form = node.form
        t = {"word-form": "w", "reg-exp": "x"}.get(node.rule.antecedent.position_type, "?")
        p = node.category
        if t == "w" and p == form:
            p = ""
        return {"r": 0, "t": t, "p": p, "f": codes(form), "c": []}
    return {"r": semmap.get(id(node.rule.sem), (-1,))[0], "t": "r", "p": node.category, "f": codes(node.form),
            "c": [enc_tree(c, semmap) for c in node.children]}


def spec_rule(r):
    return {"lhs": r["lhs"], "ar": r["ar"], "boost": r.get("boost", 0),
            "rhs": [{k: c[k] for k in ("t", "p", "ar", "f", "o", "j")} for c in r["rhs"]]}


def run(case):
    from richard.processor.parser.helper.SimpleGrammarRulesParser import SimpleGrammarRulesParser
    from richard.processor.parser.BasicParser import BasicParser
    from richard.entity.SentenceRequest import SentenceRequest
    semmap = {}
    grammar = SimpleGrammarRulesParser().parse_read_grammar(
        [simple_rule(r, k + 1, semmap, case.get("unit", 1)) for k, r in enumerate(case["g"])])
    n = len(case["g"])
    parsers = [BasicParser(grammar) for _ in range(3)]
    system = None
    solver = None
    events = [{"op": "grammar", "g": [spec_rule(r) for r in case["g"]]}]
    for op in case["ops"]:
        ev = {k: v for k, v in op.items() if k != "rule"}
        if op["op"] == "parse":
            try:
                p = BasicParser(grammar) if op.get("fresh") else parsers[op.get("parser", 0)]
                r = p.process(SentenceRequest(uncodes(op["text"])))
                ev["out"] = {"e": False, "trees": [enc_tree(x.parse_tree, semmap) for x in r.products],
                             "type": r.error_type, "args": [codes(a) for a in r.error_args]}
            except Exception as e:
                ev["out"] = {"e": True, "why": repr(e)[:200], "trees": [], "type": "", "args": []}
        elif op["op"] == "learn":
            n += 1
            ev["rule"] = spec_rule(op["rule"])
            from richard.core.Model import Model
            from richard.core.Solver import Solver
            from richard.module.GrammarModule import GrammarModule
            if solver is None:
                solver = Solver(Model([GrammarModule(grammar)]))
            try:
                res = solver.solve([("learn_grammar_rule", simple_rule(op["rule"], n, semmap))])
                ev["out"] = {"e": len(res) != 1}
            except Exception as e:
                ev["out"] = {"e": True, "why": repr(e)[:200]}
        elif op["op"] == "enter":
            from richard.block.FindOne import FindOne
            from richard.core.BasicGenerator import BasicGenerator
            from richard.core.Model import Model
            from richard.core.System import System
            from richard.grammar.en_us_write import get_en_us_write_grammar
            from richard.module.BasicOutputBuffer import BasicOutputBuffer
            if system is None:
                buf = BasicOutputBuffer()
                model = Model([buf])
                wg = SimpleGrammarRulesParser().parse_write_grammar(get_en_us_write_grammar())
                system = System(model=model, input_pipeline=[FindOne(parsers[0])],
                                output_generator=BasicGenerator(wg, model, buf))
            out = {"e": False, "ok": False, "msg": []}
            try:
                res = system.enter(SentenceRequest(uncodes(op["text"])))
                out["ok"] = res is not None
                if res is None:
                    msg = system.read_output()
                    out["msg"] = codes(msg) if isinstance(msg, str) else []
            except Exception as e:
                out["e"] = True; out["why"] = repr(e)[:200]
                system = None
            ev["out"] = out
        events.append(ev)
    return events


def nontrivial(case, events):
    return any(e["op"] == "parse" and (e["out"].get("trees") or e["out"].get("type")) or e["op"] == "enter" for e in events)


# ------------------------------------------------------------------ helper: expansion and counting (for generation only)

def lower(s): return s.lower()


def expand(r):
    kept = [[]]
    for k, c in enumerate(r["rhs"]):
        new = []
        for v in kept:
            if not v:
                new.append([c])
            else:
                if c["j"] in " ~": new.append(v + [SP, c])
                if c["j"] in "+~": new.append(v + [c])
            if c["o"]: new.append(v)
        kept = new
    return kept


SP = {"t": "w", "p": "", "ar": [], "f": [32], "o": False, "j": "+"}


def key(c):
    return (c["t"], c["p"], len(c["ar"])) if c["t"] == "r" else (c["t"], c["p"], tuple(c["f"]))


def variants(g):
    seen = set(); out = []
    for r in g:
        k = (r["lhs"], tuple(r["ar"]), tuple((c["t"], c["p"], tuple(c["ar"]), tuple(c["f"]), c["o"], c["j"] if i else "") for i, c in enumerate(r["rhs"])))
        if k in seen: continue
        seen.add(k)
        vs = set()
        for v in expand(r):
            kk = tuple((key(c), tuple(c["ar"])) for c in v)
            if kk in vs: continue
            vs.add(kk)
            out.append((r, v))
    return out


def proper(g):
    """No empty rules, no unary cycles, and variants of optional rules do not coincide with those of other rules."""
    edges = {}
    vs = variants(g)
    owner = {}
    for r, v in vs:
        if not v: return False
        full = (r["lhs"], tuple(r["ar"]), tuple((key(c), tuple(c["ar"])) for c in v))
        if full in owner and owner[full] is not r: return False
        owner[full] = r
        if len(v) == 1 and v[0]["t"] == "r":
            edges.setdefault((r["lhs"], len(r["ar"])), set()).add((v[0]["p"], len(v[0]["ar"])))
    state = {}
    def dfs(n):
        state[n] = 1
        for m in edges.get(n, ()):
            if state.get(m) == 1 or (m not in state and not dfs(m)): return False
        state[n] = 2
        return True
    return all(dfs(n) for n in list(edges) if n not in state)


def collapse(t): return re.sub(r"\s+", " ", t)


def count_trees(g, text, limit):
    """The number of trees over all spans; used to keep cases small."""
    t = collapse(text); n = len(t); vs = variants(g)
    cell = {}
    total = 0
    def leaf(c, i, j):
        if c["t"] == "w": return 1 if lower(t[i:j]) == lower(uncodes(c["f"])) else 0
        m = re.match(c["p"], t[i:])
        return 1 if m and j > i and len(m.group(0)) >= j - i else 0
    def ch(c, i, j):
        if c["t"] == "r": return cell.get((i, j), {}).get((c["p"], len(c["ar"])), 0)
        return leaf(c, i, j)
    def seqs(v, k, i, j):
        if k == len(v) - 1: return ch(v[k], i, j)
        s = 0
        for m in range(i + 1, j - (len(v) - k - 1) + 1):
            a = ch(v[k], i, m)
            if a: s += a * seqs(v, k + 1, m, j)
        return s
    for ln in range(1, n + 1):
        for i in range(n - ln + 1):
            j = i + ln
            base = {}
            for r, v in vs:
                if len(v) == 1 and v[0]["t"] == "r": continue
                c = seqs(v, 0, i, j)
                if c:
                    k = (r["lhs"], len(r["ar"])); base[k] = base.get(k, 0) + c
            cur = dict(base)
            for _ in range(12):
                nxt = dict(base)
                for r, v in vs:
                    if len(v) == 1 and v[0]["t"] == "r":
                        k = (r["lhs"], len(r["ar"])); x = cur.get((v[0]["p"], len(v[0]["ar"])), 0)
                        if x: nxt[k] = nxt.get(k, 0) + x
                if nxt == cur: break
                cur = nxt
            cell[(i, j)] = cur
            total += sum(cur.values())
            if total > limit: return limit + 1
    return total


def derive(rng, g, cat, nargs, depth, maxlen):
    """A random text of the grammar, or None."""
    cands = [(r, v) for r, v in variants(g) if r["lhs"] == cat and len(r["ar"]) == nargs]
    if not cands: return None
    if depth <= 0:
        cands = [c for c in cands if all(x["t"] != "r" for x in c[1])] or cands
        if depth < -6: return None
    r, v = rng.choice(cands)
    out = ""
    for c in v:
        if c["t"] == "w": out += uncodes(c["f"])
        elif c["t"] == "x": out += rng.choice(XSAMPLES.get(c["p"], ["a"]))
        else:
            s = derive(rng, g, c["p"], len(c["ar"]), depth - 1, maxlen)
            if s is None: return None
            out += s
        if len(out) > maxlen: return None
    return out


XSAMPLES = {"[ab]+": ["a", "b", "ab", "bba"], "\\w+": ["a", "x1", "ab", "The"], "[0-9]+": ["1", "12", "007"], "a|ab": ["a"],
            "a?b": ["b", "ab"], "\\d{2}": ["12"], "a/b": ["a/b"], "[^ ]*": ["?", "a!", "é"], "x*": ["x", "xx"], "b(?=a)": ["b"],
            "[A-Z]\\w*": ["The", "Bob"], "(ab)+": ["ab", "abab"], "x": ["x"], "a": ["a"],
            "[ab ]+": ["a b", "a ", "b"], ".+": ["a b", "x", "é a"], " ?a": [" a", "a"], "[^b]+": ["a", "x a", " "], "\\s": [" "]}
WORDS = ["a", "b", "a", "b", "ab", "ba", "aa", "The", "the", "x", "it's", "É", "é", "a b", "don't", "A", "say \"x\"", "?", "1"]
NAMES = ["E1", "E2", "E3"]


def C(t, p="", ar=(), f="", o=False, j=" "):
    return {"t": t, "p": p, "ar": list(ar), "f": codes(f), "o": o, "j": j}


def rand_constituent(rng, cats, words, pj, popt=0.0, px=.12, pr=.5):
    r = rng.random()
    j = rng.choice(["+", "+", "~", " "]) if rng.random() < pj else " "
    if r < pr:
        c, n = rng.choice(cats)
        return C("r", c, [rng.choice(NAMES) for _ in range(n)], j=j)
    if r < pr + px:
        return C("x", rng.choice(list(XSAMPLES)), j=j)
    c = C("w", f=rng.choice(words), j=j, o=rng.random() < popt)
    if rng.random() < .2: c["q"] = '"'
    return c


def rand_grammar(rng, popt=0.0, boosts=False, maxrules=8):
    for _ in range(200):
        cats = [("s", rng.choice([0, 1, 1]))]
        # categories may be called like words
        for c in (("np", "vp", "n", "v2") if rng.random() < .7 else rng.sample(["a", "b", "x", "np"], 4))[:rng.randint(1, 3)]:
            cats.append((c, rng.randint(0, 2)))
            if rng.random() < .25: cats.append((c, rng.randint(0, 2)))
        if rng.random() < .15: cats.append(("s", 2))
        cats = list(dict.fromkeys(cats))
        words = rng.sample(WORDS, rng.randint(2, 4))
        pj = rng.choice([0, .4, .9])
        style = rng.random()
        g = []
        for cat in cats + [rng.choice(cats) for _ in range(rng.randint(1, maxrules - 2))]:
            k = rng.choice([1, 1, 2, 2, 2, 3])
            rhs = [rand_constituent(rng, cats, words, pj, popt) for _ in range(k)]
            if style < .4 and rng.random() < .5:
                # dense ambiguity: short words, no separators
                rhs = [rand_constituent(rng, cats, words[:2], 1.0) for _ in range(k)]
                for c in rhs: c["j"] = "+"
            g.append({"lhs": cat[0], "ar": NAMES[:cat[1]] if rng.random() < .8 else rng.sample(NAMES, cat[1]), "rhs": rhs,
                      "boost": rng.choice([0, 0, 1, 2, -1, 3]) if boosts else 0, "tight": rng.random() < .3})
        if rng.random() < .15:
            g.append(dict(rng.choice(g), boost=rng.choice([0, 1]) if boosts else 0))
        for r in g: r["rhs"][0]["j"] = " "
        if proper(g) and any(derive(rng, g, "s", n, 4, 14) for c, n in cats if c == "s" for _ in range(6)):
            return g
    raise RuntimeError("no grammar found")


CHARS = "ab Te'x1É?"


def mutate(rng, t):
    r = rng.random()
    if r < .2 and t:
        i = rng.randrange(len(t)); return t[:i] + t[i + 1:]
    if r < .4:
        i = rng.randint(0, len(t)); return t[:i] + rng.choice(CHARS) + t[i:]
    if r < .55: return t[:rng.randint(0, len(t))]
    if r < .7: return t + rng.choice([" ", "a", " a b", " zzz zzz zzz zzz"])
    if r < .8: return t.upper() if rng.random() < .5 else t.capitalize()
    if r < .9: return "".join(rng.choice(CHARS) for _ in range(rng.randint(0, 8)))
    return rng.choice([" ", ""]) + t


def spaces(rng, t):
    return re.sub(" ", lambda m: rng.choice([" ", " ", "  ", "\t", "\n", " \n ", "\xa0"]), t)


def rand_text(rng, g, maxlen=12, pmut=.35):
    ns = [len(r["ar"]) for r in g if r["lhs"] == "s"]
    t = None
    for _ in range(20):
        t = derive(rng, g, "s", rng.choice(ns), rng.randint(1, 5), maxlen)
        if t is not None: break
    if t is None: t = ""
    if rng.random() < pmut: t = mutate(rng, t)
    if rng.random() < .15: t = t.swapcase() if all(ord(c) < 256 for c in t) else t
    if rng.random() < .2: t = spaces(rng, t)
    t = t.replace("ß", "s").replace("ÿ", "y").replace("µ", "m").replace("Ÿ", "y").replace("SS", "s")
    return t[:maxlen + 4]


def re_table(g, text):
    t = collapse(text)
    out = {}
    for r in g:
        for c in r["rhs"]:
            if c["t"] == "x":
                out[c["p"]] = [len(m.group(0)) if (m := re.match(c["p"], t[i:])) else 0 for i in range(len(t) + 1)]
    return out


def parse_op(g, text, judge, **kw):
    return dict({"op": "parse", "text": codes(text), "re": re_table(g, text), "judge": judge}, **kw)


def ambiguous_texts(rng, g, k, limit, maxlen=12, pmut=.35):
    out = []
    for _ in range(k * 6):
        t = rand_text(rng, g, maxlen, pmut)
        if t not in out and count_trees(g, t, limit) <= limit:
            out.append(t)
        if len(out) == k: break
    return out


# ------------------------------------------------------------------ cases

LONGX = {"[ab]+": "abba", "\\w+": "x1aé", "[0-9]+": "0123456789", "[^ ]*": "?a!é", "(ab)+": "ab", "[^b]+": "x 1a", "[ab ]+": "a bb ", ".+": "x1 é?"}


def long_case(rng, nops=2):
    """A small grammar with a long word or token, and long texts of it."""
    def word(): return "".join(rng.choice("ab01xé") for _ in range(rng.randint(26, 34)))
    short = ["a", "the", "x y"]
    j = lambda: rng.choice([" ", "+", "~"])
    def long(j=" "): return C("x", rng.choice(list(LONGX)), j=j) if rng.random() < .7 else C("w", f=word(), j=j)
    kind = rng.randint(0, 2)
    if kind == 0:     # the long token comes last
        g = [("s", ["E1"], [C("w", f=rng.choice(short)), C("r", "np", ["E1"], j=j())]), ("np", ["E1"], [long()])]
    elif kind == 1:   # first
        g = [("s", ["E1"], [C("r", "np", ["E1"]), C("w", f=rng.choice(short), j=j())]), ("np", ["E1"], [long()])]
    else:             # alone
        g = [("s", ["E1"], [C("r", "np", ["E1"])]), ("np", ["E1"], [long()])]
    if rng.random() < .4: g.append(("np", ["E1"], [C("w", f=rng.choice(short))]))
    g = [{"lhs": l, "ar": ar, "rhs": rhs, "boost": 0, "tight": False} for l, ar, rhs in g]
    if not proper(g): return None
    out = []
    for _ in range(12):
        t = ""
        def put(r):
            nonlocal t
            for k, c in enumerate(r["rhs"]):
                if k and (c["j"] == " " or c["j"] == "~" and rng.random() < .5): t += " "
                if c["t"] == "w": t += uncodes(c["f"])
                elif c["t"] == "x": t += (LONGX[c["p"]] * 20)[:rng.randint(25, 36)]
                else: put(next(q for q in g if q["lhs"] == "np"))
        put(g[0])
        t = t if rng.random() < .85 else mutate(rng, t)
        t = t[:42]
        if t not in out and count_trees(g, t, 1500) <= 1500: out.append(t)
        if len(out) == nops: break
    return (g, out) if out else None


def cases_C01(rng, tier):
    n = 700 if tier == "quick" else 6000
    lim, ml = (120, 13) if tier == "quick" else (200, 16)
    out = []
    while len(out) < n:
        if rng.random() < .05:
            lc = long_case(rng, 1)
            if lc: out.append({"g": lc[0], "ops": [parse_op(lc[0], t, ["trees"], parser=0) for t in lc[1]]})
            continue
        g = rand_grammar(rng, popt=rng.choice([0, 0, .2]))
        ts = ambiguous_texts(rng, g, rng.randint(2, 4), lim, ml, .25)
        ops = [parse_op(g, t, ["trees"], parser=0) for t in ts]
        if ops: out.append({"g": g, "ops": ops})
    return out


def variation(rng, r):
    """A rule that differs from rule r in one detail."""
    r = json.loads(json.dumps(r)); c = rng.choice(r["rhs"][1:] or r["rhs"]); kind = rng.randint(0, 5)
    if kind == 0 and c is not r["rhs"][0]: c["j"] = rng.choice([x for x in "+~ " if x != c["j"]])
    elif kind == 1 and len(r["rhs"]) > 1: c["o"] = c["t"] == "w" and not c["o"]
    elif kind == 2: r["ar"] = rng.sample(NAMES, len(r["ar"]))
    elif kind == 3: c["ar"] = [rng.choice(NAMES) for _ in c["ar"]]
    elif kind == 4: r["boost"] = r["boost"] + 1
    elif c["t"] == "w": c["f"] = codes(rng.choice(WORDS))
    return r


def cases_C02(rng, tier):
    n = 380 if tier == "quick" else 3500
    lim, ml = (70, 12) if tier == "quick" else (120, 14)
    out = []
    while len(out) < n:
        g = rand_grammar(rng, popt=rng.choice([0, 0, .2]), maxrules=6)
        k = rng.randint(1, 3)
        extra = []
        for _ in range(50):
            if len(extra) == k: break
            donor = rand_grammar(rng, popt=rng.choice([0, 0, .2]), maxrules=5)
            r = dict(rng.choice(donor), boost=rng.choice([0, 1]))
            # connect the new rule to the grammar
            cats = sorted({(x["lhs"], len(x["ar"])) for x in g})
            c, a = rng.choice(cats)
            r["lhs"], r["ar"] = c, NAMES[:a]
            if rng.random() < .1: r = dict(rng.choice(g))
            elif rng.random() < .35: r = variation(rng, rng.choice(g))
            if proper(g + extra + [r]): extra.append(r)
        late = sorted({(x["lhs"], len(x["ar"])) for x in g if x["lhs"] != "s"})
        if rng.random() >= .35: late = []
        if late:
            # all rules of a category are learned along the way
            c = rng.choice(late)
            mine = [r for r in g if (r["lhs"], len(r["ar"])) == c]
            g = [r for r in g if r not in mine]
            extra = mine + [r for r in extra if r not in mine]
        cur = list(g); pool = []
        ops = []
        learned = 0
        for _ in range(rng.randint(4, 9)):
            if learned < len(extra) and rng.random() < .3:
                ops.append({"op": "learn", "rule": extra[learned]}); cur = cur + [extra[learned]]; learned += 1
                continue
            if pool and rng.random() < .55: t = rng.choice(pool)
            else:
                t = rand_text(rng, cur if rng.random() < .5 else g + extra, ml, .2)
            if count_trees(cur, t, lim) > lim: continue
            if t not in pool: pool.append(t)
            ops.append(parse_op(cur, t, ["trees", "repeat"], parser=rng.randint(0, 2), fresh=rng.random() < .2))
        if late:
            # what could not be read at first
            full = g + extra
            ts = [t for t in (rand_text(rng, full, ml, 0) for _ in range(20)) if count_trees(g, t, lim) == 0 < count_trees(full, t, lim) <= lim][:2]
            if ts:
                ops = [parse_op(g, t, ["trees", "repeat"], parser=0) for t in ts[:1]] + ops
                ops += [{"op": "learn", "rule": r} for r in extra[learned:]] + [parse_op(full, t, ["trees", "repeat"], parser=rng.randint(0, 1)) for t in ts]
        if sum(o["op"] == "parse" for o in ops) >= 2: out.append({"g": g, "ops": ops})
    return out


def cases_C03(rng, tier):
    n = 600 if tier == "quick" else 6000
    lim, ml = (150, 12) if tier == "quick" else (250, 14)
    out = []
    while len(out) < n:
        g = rand_grammar(rng, boosts=True)
        ts = [t for t in ambiguous_texts(rng, g, 5, lim, ml, .1)]
        ops = [parse_op(g, t, ["trees", "order"]) for t in ts]
        # prefer texts with several readings
        # boosts may be fractions: in units of a half
        if sum(multi(g, t) for t in ts) >= 1 or rng.random() < .05: out.append({"g": g, "ops": ops, "unit": .5 if rng.random() < .3 else 1})
    return out


def multi(g, t):
    """Does the text have several readings? (only used to pick interesting cases)"""
    from collections import Counter
    t = collapse(t); n = len(t)
    if n == 0: return False
    # count readings of the whole text by a fresh DP with a limit
    return count_root(g, t) > 1


def count_root(g, t):
    n = len(t); vs = variants(g)
    from functools import lru_cache
    @lru_cache(None)
    def cat(c, a, i, j, chain):
        if chain > 8: return 0
        return sum(seqs(k, 0, i, j, chain) for k, (r, v) in enumerate(vs) if r["lhs"] == c and len(r["ar"]) == a)
    @lru_cache(None)
    def seqs(vi, k, i, j, chain):
        v = vs[vi][1]; c = v[k]
        last = k == len(v) - 1
        tot = 0
        for m in ([j] if last else range(i + 1, j)):
            if c["t"] == "r": x = cat(c["p"], len(c["ar"]), i, m, chain + 1 if (i, m) == (i, j) and len(v) == 1 else 0)
            elif c["t"] == "w": x = lower(t[i:m]) == lower(uncodes(c["f"]))
            else:
                mm = re.match(c["p"], t[i:]); x = bool(mm) and len(mm.group(0)) >= m - i
            if x: tot += int(x) * (1 if last else seqs(vi, k + 1, m, j, 0))
        return tot
    return sum(cat("s", a, 0, n, 0) for a in {len(r["ar"]) for r in g if r["lhs"] == "s"})


def cases_C04(rng, tier):
    n = 600 if tier == "quick" else 5000
    lim, ml = (80, 16) if tier == "quick" else (150, 22)
    out = []
    while len(out) < n:
        g = rand_grammar(rng, popt=rng.choice([0, .2]))
        ops = []
        ts = ambiguous_texts(rng, g, rng.randint(3, 5), lim, ml, .7)
        base = rand_text(rng, g, ml, 0)
        ts += [base[:i] for i in rng.sample(range(len(base) + 1), min(2, len(base) + 1))]
        if rng.random() < .3: ts.append("")
        for t in ts:
            if count_trees(g, t, lim) > lim: continue
            ops.append(parse_op(g, t, ["failure"]))
            if rng.random() < .6:
                ops.append({"op": "enter", "text": codes(t), "re": re_table(g, t)})
        out.append({"g": g, "ops": ops})
    return out


def cases_C05(rng, tier):
    n = 550 if tier == "quick" else 5000
    out = []
    while len(out) < n:
        g = []
        words = rng.sample(["a", "b", "c", "the", "x"], 3)
        k = rng.randint(1, 5)
        rhs = []
        for i in range(k):
            j = rng.choice([" ", " ", "+", "~"])
            r = rng.random()
            if r < .25: rhs.append(C("r", "n", ["E1"], j=j))
            elif r < .32: rhs.append(C("x", "[0-9]+", j=j))
            else: rhs.append(C("w", f=rng.choice(words), j=j, o=rng.random() < .6))
        if all(c["o"] for c in rhs): rng.choice(rhs)["o"] = False
        g.append({"lhs": "s", "ar": ["E1"], "rhs": rhs, "tight": rng.random() < .3})
        g.append({"lhs": "n", "ar": ["E1"], "rhs": [C("w", f="n")], "tight": False})
        if rng.random() < .3:
            g.append({"lhs": "n", "ar": ["E1"], "rhs": [C("w", f="big", o=True), C("w", f="m", j=rng.choice([" ", "~", "+"]))]})
        if not proper(g): continue
        good = set()
        for v in expand(g[0]):
            t = ""
            for c in v:
                t += {"w": uncodes(c["f"]), "x": "12", "r": rng.choice(["n", "n", "m", "big m", "bigm"])}[c["t"]]
            good.add(t)
        good = sorted(good)
        texts = set(rng.sample(good, min(len(good), 6)))
        for t in list(texts) + good[:2]:
            # near misses: drop or add a space or a word
            cands = [t + " ", " " + t, t.replace(" ", "", 1), t.replace(" ", "  ", 1)]
            for w in words + ["n"]:
                cands += [t.replace(w, "", 1), t.replace(w + " ", "", 1), w + " " + t, t + " " + w]
            for i in range(1, len(t)): cands.append(t[:i] + " " + t[i:])
            texts |= set(rng.sample(cands, min(3, len(cands))))
        ops = [parse_op(g, t, ["accept"]) for t in sorted(texts) if len(t) <= 22]
        out.append({"g": g, "ops": ops})
    return out


# ------------------------------------------------------------------ replaying the exhaustive model

def replay_grammars(judge):
    """Every small grammar of MC_Parse with short texts over {a, b, space}: parsed by the code and judged."""
    def replay(behaviours, rng, tier):
        import itertools
        texts = ["".join(t) for k in range(5) for t in itertools.product("ab ", repeat=k)]
        gs = [[dict(r, rhs=list(r["rhs"])) for r in b["g"]] for b in behaviours]
        # a grammar of rules that never make a sentence tests little
        gs = [g for g in gs if proper(g) and any(r["lhs"] == "s" for r in g)]
        gs.sort(key=repr)
        if tier == "quick":
            gs = rng.sample(gs, min(len(gs), 40))
        elif len(gs) > 300:
            gs = rng.sample(gs, 300)
        out = []
        for g in gs:
            for r in g: r["tight"] = rng.random() < .5
            good = [t for t in texts if count_root(g, collapse(t)) > 0] if "failure" not in judge else texts
            ts = rng.sample(good, min(len(good), 10 if tier == "quick" else 30)) + rng.sample(texts, 4)
            ts = [t for t in dict.fromkeys(ts) if count_trees(g, t, 150) <= 150]
            if "repeat" in judge:
                # the last rule is learned along the way
                head, last = g[:-1], g[-1]
                if not head or not any(r["lhs"] == "s" for r in head): continue
                if any(count_trees(head, t, 150) > 150 for t in ts): continue
                ops = [parse_op(head, t, judge, parser=0) for t in ts[:5]] + [parse_op(head, t, judge, parser=1) for t in ts[:3]]
                ops += [{"op": "learn", "rule": last}] + [parse_op(g, t, judge, parser=k % 2) for k, t in enumerate(ts)] + \
                       [parse_op(g, t, judge, fresh=True) for t in ts[:2]]
                out.append({"g": head, "ops": ops})
                continue
            ops = []
            for t in ts:
                ops.append(parse_op(g, t, judge))
                if "failure" in judge and rng.random() < .3:
                    ops.append({"op": "enter", "text": codes(t), "re": re_table(g, t)})
            out.append({"g": g, "ops": ops})
        return out
    return replay


def P(cases, judge, **kw):
    rep = replay_grammars(judge)
    d = dict(cases=cases, run=run, trace="Trace_Parse", nontrivial=nontrivial, mc=[
        {"module": "MC_Parse", "cfg": "MC_Parse_q", "replay": rep, "only": "quick"},
        {"module": "MC_Parse", "cfg": "MC_Parse_t", "replay": rep, "only": "thorough", "tier": "thorough", "workers": "8", "timeout": 800}])
    if "failure" in judge: d["mc"].append({"module": "MC_Parse", "cfg": "MC_Parse_t2", "only": "thorough", "tier": "thorough", "workers": "8", "timeout": 800})
    d.update(kw)
    return d


PROPS = {"C01": P(cases_C01, ["trees"]), "C02": P(cases_C02, ["trees", "repeat"]), "C03": P(cases_C03, ["trees", "order"]),
         "C04": P(cases_C04, ["failure"]), "C05": P(cases_C05, ["accept"])}
