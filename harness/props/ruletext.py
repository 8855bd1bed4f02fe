"""C21: reading rule text."""
import os
from decimal import Decimal
from common import codes, uncodes

# ------------------------------------------------------------------ running


def digits(v):
    """canonical digits of a number, exactly"""
    s = format(Decimal(repr(v)), "f")
    neg, s = s.startswith("-"), s.lstrip("-")
    w, _, f = s.partition(".")
    w, f = w.lstrip("0") or "0", f.rstrip("0")
    s = w + ("." + f if f else "")
    s = ("-" if neg and s != "0" else "") + s
    return codes(s[:12] if isinstance(v, float) and len(s) > 15 else s)


def ch(v):
    t = type(v).__name__
    if t == "str": return {"k": "c", "c": codes(v)}
    if t == "int": return {"k": "int", "c": digits(v)}
    if t == "float": return {"k": "flt", "c": digits(v)}
    if t == "Variable": return {"k": "vc", "c": codes(v.name)}
    if t == "list": return {"k": "l", "l": [ch(x) for x in v]}
    if t == "tuple": return {"k": "t", "t": [ch(x) for x in v]}
    return {"k": "o", "o": repr(v)[:100]}


def rule(r): return {"head": ch(r.head), "body": [ch(a) for a in r.body]}


def run(case):
    from richard.module.helper.SimpleInferenceRuleParser import SimpleInferenceRuleParser
    events = [{"op": "init"}]
    if case["kind"] == "read":
        parser = SimpleInferenceRuleParser()
        for text in case["texts"]:
            try:
                rules, pos = parser.parse(uncodes(text))
                out = {"ok": rules is not None and pos is None, "v": [rule(r) for r in rules or []]}
            except Exception as e:
                out = {"ok": False, "v": [], "why": repr(e)[:200]}
            events.append({"op": "read", "text": text, "out": out})
    else:
        from richard.module.InferenceModule import InferenceModule
        m = InferenceModule()
        own = set(m.relations)
        for text in case["texts"]:
            fn = os.path.join(os.environ["VERIF_SCRATCH"], "rules.pl")
            with open(fn, "wb") as f: f.write(uncodes(text).encode())
            try:
                m.import_rules(fn); out = {"ok": True}
            except Exception as e:
                out = {"ok": False, "why": repr(e)[:200]}
            preds = [p for p in m.relations if p not in own]
            events.append({"op": "import", "text": text, "out": out, "preds": [codes(p) for p in preds],
                           "rules": [[rule(r) for r in m.rules[p]] for p in preds]})
    return events


def nontrivial(case, events): return any(e["op"] != "init" and (e["out"]["ok"] or len(e["text"]) > 3) for e in events)


# ------------------------------------------------------------------ generating

NAMES = ["p", "q", "parent", "is_a", "p1", "_x", "X", "Parent", "notX", "été", "7", "a_B"]
VARS = ["X", "Y", "E1", "X_1", "Body", "XY"]
STRS = ["", "a", "it's", 'say "x"', "#no", "a # b", "p(X).", "\n", "a\nb", "a\n# b", "\n#", "\n\t#c\nd", "\\n", "\\", " ", "''", '""', "é", ":-", "X", "5", "-5", "a,b", "(", "$", "a\\'b", 'a\\"b', '\\"', "\\'", "x\\y", "\\t"]
INTS = ["0", "1", "-1", "42", "007", "-0", "-12", "2147483648", "123456789012345678901", "00"]
FLTS = ["0.0", "1.5", "-2.25", "0.1", "-0.5", "10.0", "3.140", "00.5", "-0.0", "100.001", "0.000001"]


def string(rng, v):
    quotes = [q for q in "'\"" if not (v.endswith("\\") or ("\\" + q) in v)]
    if not quotes: return None
    q = rng.choice(quotes)
    return q + v.replace(q, "\\" + q) + q


def tok_term(rng, d):
    r = rng.random()
    if d > 0 and r < .15: return tok_body(rng, d - 1, wrap=rng.random() < .7)
    if r < .45: return [rng.choice(VARS)]
    if r < .65: return [rng.choice(INTS)]
    if r < .75: return [rng.choice(FLTS)]
    return [string(rng, rng.choice(STRS)) or "'x'"]


def tok_atom(rng, d):
    n = rng.choice([0, 1, 1, 2, 2, 3, 4])
    out = [rng.choice(NAMES[:5] if rng.random() < .7 else NAMES), "("]
    for i in range(n):
        if i: out.append(",")
        out += tok_term(rng, d)
    if n and rng.random() < .03: out.append(",")
    return out + [")"]


def tok_item(rng, d):
    if d > 0 and rng.random() < .25:
        out = ["("]
        for i in range(rng.choice([1, 2, 2, 3])):
            if i: out.append(";")
            out += tok_body(rng, d - 1)
        return out + [")"]
    return tok_atom(rng, d)


def tok_body(rng, d, wrap=False):
    if wrap or rng.random() < .15: return ["("] + tok_body(rng, d, False) + [")"]
    out = tok_item(rng, d)
    for _ in range(rng.choice([0, 0, 1, 1, 2])): out += [","] + tok_item(rng, d)
    return out


def tok_rule(rng):
    d = rng.choice([0, 1, 1, 2])
    out = tok_atom(rng, d)
    if rng.random() < .6: out += [":-"] + tok_body(rng, d)
    return out + ["."]


WS = ["", " ", "\n", "\t", "  ", "\n\n", " \n"]
COMMENTS = ["# c\n", "#\n", "# p(X).\n", "# it's\n", '#"\n', "# 'a' (\n"]
SOUP = ["p", "q", "X", "(", ")", ",", ".", ":-", ";", "0", "-1", "1.5", "'a'", '"b"', "#", "-", ":", "'", "&", "|", "\\", "!", "_", "=", "[", "]", "{", "é", "?", "\n"]


def join(rng, toks, eol="\n"):
    style = rng.choice(["tight", "spaced", "wild"])
    out, glue = "", lambda a, b: a and b and (a[-1].isalnum() or a[-1] == "_") and (b[0].isalnum() or b[0] in "_")
    for t in toks:
        sep = "" if style == "tight" else rng.choice(["", " "]) if style == "spaced" else "".join(rng.choice(WS + COMMENTS[:rng.choice([0, 6])]) for _ in range(rng.choice([1, 1, 1, 2, 3])))
        if glue(out, t) and not sep: sep = " "
        if sep.startswith("#") and out.endswith("#"): sep = " " + sep
        out += sep.replace("\n", eol) + t
    if rng.random() < .5: out += rng.choice(["\n", " ", "# end", "\n# end\n", "#"]).replace("\n", eol)
    return out


def corrupt(rng, toks):
    toks = list(toks)
    for _ in range(rng.choice([1, 1, 1, 2])):
        i = rng.randrange(len(toks) + 1)
        r = rng.random()
        if r < .3 and i < len(toks): del toks[i]
        elif r < .6: toks.insert(i, rng.choice(SOUP))
        elif r < .75 and i < len(toks): toks[i] = rng.choice(SOUP)
        elif r < .85 and len(toks) > 1:
            j = rng.randrange(len(toks) - 1); toks[j], toks[j + 1] = toks[j + 1], toks[j]
        elif r < .93: toks = toks[:i]
        else: toks = toks[i:]
    return toks


def text(rng, file=False):
    r = rng.random()
    toks = []
    for _ in range(rng.choice([0, 1, 1, 2, 3, 5])): toks += tok_rule(rng)
    eol = rng.choice(["\n", "\n", "\r\n"])
    if r < .35 and toks: toks = corrupt(rng, toks)
    elif r < .45: toks = [rng.choice(SOUP[:14]) for _ in range(rng.randint(1, 9))]
    s = join(rng, toks, eol)
    if .45 <= r < .55 and s:
        i = rng.randrange(len(s))
        s = rng.choice([s[:i] + s[i + 1:], s[:i] + rng.choice(SOUP) + s[i:], s[:i], s[i:]])
    return s


def cases(rng, tier):
    out = []
    for _ in range(400 if tier == "quick" else 6000):
        if rng.random() < .8:
            out.append({"kind": "read", "texts": [codes(text(rng)) for _ in range(4)]})
        else:
            ts = [t for t in (text(rng) for _ in range(12)) if "\\'" not in t and '\\"' not in t and "\r" not in t][:4]
            out.append({"kind": "import", "texts": [codes(t) for t in ts]})
    return out


def replay(behaviours, rng, tier):
    texts = sorted({tuple(b["text"]) for b in behaviours})
    if tier == "quick": texts = rng.sample(texts, min(len(texts), 3000))
    return [{"kind": "read", "texts": [list(t) for t in texts[i:i + 50]]} for i in range(0, len(texts), 50)]


PROPS = {"C21": dict(cases=cases, run=run, trace="Trace_RuleText", nontrivial=nontrivial,
                     mc=[{"module": "MC_RuleText", "replay": replay},
                         {"module": "MC_RuleText", "cfg": "MC_RuleText_t", "tier": "thorough", "replay": replay}])}
