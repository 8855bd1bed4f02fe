"""C18: generation; C19: the output buffer."""
from common import enc, dec, codes, V, L, T, A
from props.model import build_model, spec_mods, enc_answers
from props.parse import render_syn, C

# ------------------------------------------------------------------ running


def boom(*a): raise Exception("boom")


EXEC = {"wrap": lambda *vs: "<" + "|".join(str(v) for v in vs) + ">", "list": lambda *vs: list(vs), "n": lambda *vs: len(vs),
        "first": lambda *vs: vs[0], "boom": boom}
POST = {"wrap": lambda r: "[" + r + "]" if isinstance(r, str) else ["post", r], "boom": boom}


def write_rule(r):
    # an optional category is marked like an optional word
    d = {"syn": render_write(r)}
    if r["has"]: d["if"] = [dec(a) for a in r["cond"]]
    if r["exec"]: d["format"] = EXEC[r["exec"]]
    if r["post"]: d["post"] = POST[r["post"]]
    return d


def render_write(r):
    x = dict(r); x["rhs"] = []
    for c in r["rhs"]:
        c = dict(c)
        if c["t"] == "w": c["f"] = codes(c["f"])
        x["rhs"].append(c)
    s = render_syn(dict(x, rhs=[]))
    for k, c in enumerate(x["rhs"]):
        one = render_syn(dict(x, rhs=[c])).split("->", 1)[1].strip() if c["t"] == "r" else None
        if one is None:
            one = render_syn(dict(x, rhs=[c]))[len(render_syn(dict(x, rhs=[]))):].lstrip(" ")
        s += (" " if k == 0 or c["j"] == " " else "+") + one + ("?" if c["t"] == "r" and c["o"] else "")
    return s


def spec_rule(r): return {k: r[k] for k in ("lhs", "ar", "rhs", "cond", "has", "exec", "post")}


def run(case):
    from richard.core.BasicGenerator import BasicGenerator
    from richard.core.Solver import Solver
    from richard.core.System import System
    from richard.processor.parser.helper.SimpleGrammarRulesParser import SimpleGrammarRulesParser
    model, modules = build_model(case["mods"])
    ob = modules[case["ob"] - 1]
    grammar = SimpleGrammarRulesParser().parse_write_grammar([write_rule(r) for r in case["rules"]])
    generator = BasicGenerator(grammar, model, ob)
    system = System(model=model, input_pipeline=[], output_generator=generator)
    solver = Solver(model)
    events = [{"op": "init", "mods": spec_mods(case["mods"]), "rules": [spec_rule(r) for r in case["rules"]], "ob": case["ob"],
               "texts": [[t, str(dec(t))] for t in case["texts"]]}]
    for op in case["ops"]:
        ev = dict(op)
        try:
            if op["op"] == "read": ev["out"] = {"e": False, "v": enc(system.read_output() if op.get("sys") else generator.generate_output())}
            elif op["op"] == "write": solver.write_atom(dec(op["atom"])); ev["out"] = {"e": False}
            elif op["op"] == "solve": ev["out"] = {"e": False, "r": enc_answers(solver.solve([dec(a) for a in op["goals"]], {}))}
            elif op["op"] == "facts":
                mod = modules[op["m"] - 1]
                c = mod.get_relations()[op["p"]].arguments
                ev["out"] = {"e": False, "r": [[enc(x) for x in row] for row in mod.data_source.select(op["p"], c, [None] * len(c))]}
        except Exception as e:
            ev["out"] = {"e": True, "r": [], "v": {"k": "n"}, "why": repr(e)[:200]}
        events.append(ev)
    return events


def nontrivial(case, events): return any(e["op"] == "read" and (e["out"]["e"] or e["out"]["v"]) for e in events)


# ------------------------------------------------------------------ generating

BUILTIN = {"output_type": 1, "output_value": 1, "output_value_with_unit": 2, "output_table": 2, "output_list": 1, "output_name_not_found": 1,
           "output_unknown_word": 1, "output_no_sentence": 0, "output_not_understood": 0}
NAMES = ["E1", "E2", "E3", "E4", "Name"]
STR = ["a", "b", "", "Jane", "it's", "É", "x y", "0", "None", " x", "y ", "\n"]
NUM = [0, 1, 2, -3, 2.5]
WORDS = ["x", "the", "OK", "it's", "?", "a b", "(", "not", "É", "...", '"', "->", "~"]


def W(f, j=" "): return {"t": "w", "p": "", "ar": [], "f": f, "o": False, "j": j, "q": "'"}
def R(p, ar, o=False, j=" "): return {"t": "r", "p": p, "ar": list(ar), "f": "", "o": o, "j": j}
def rule(lhs, ar, rhs, cond=None, exec="", post=""): return {"lhs": lhs, "ar": list(ar), "rhs": rhs, "cond": cond or [], "has": bool(cond), "exec": exec, "post": post}


def world(rng):
    """modules: names, facts, a buffer"""
    ids = [enc(x) for x in rng.sample(STR[:6] + NUM[:4], 4)]
    names = [enc(x) for x in rng.sample(STR, 4)]
    anyv = ids + names + [enc(x) for x in rng.sample(NUM, 2)]
    rels = {p: {"ar": n, "w": True} for p, n in BUILTIN.items()}
    rels.update({"output_subject": {"ar": 2, "w": True}, "output_object": {"ar": 2, "w": True}})
    buf = {"kind": "table", "impl": "buffer", "rels": rels, "rows": {p: [] for p in rels}}
    pairs = lambda k, a, b: [[rng.choice(a), rng.choice(b)] for _ in range(rng.randint(0, k))]
    nxt = [[ids[i], ids[i + 1]] for i in range(3) if rng.random() < .8]
    facts = {"kind": "table", "impl": "simple",   # lists are no values for a database
             "rels": {"name": {"ar": 2, "w": True}, "kind": {"ar": 2, "w": True}, "next": {"ar": 2, "w": True}, "n": {"ar": 1, "w": True}},
             "rows": {"name": pairs(5, ids, names), "kind": pairs(4, ids, names), "next": nxt, "n": [[x] for x in ids if rng.random() < .5]}}
    infer = {"kind": "infer", "impl": "obj", "rules": [
        {"head": A("known", V("X")), "body": [A("name", V("X"), V("Y"))]},
        {"head": A("label", V("X"), V("E1")), "body": [A("name", V("X"), V("E1"))]},
        {"head": A("label", V("E2"), V("Y")), "body": [A("kind", V("E2"), V("Y"))]}]}
    mods = [buf, facts, infer]
    order = rng.choice([[0, 1, 2], [1, 2, 0], [2, 0, 1]])
    mods = [mods[i] for i in order]
    return mods, order.index(0) + 1, order.index(1) + 1, ids, names, anyv


def cond_for(rng, ar, ids, names, top):
    """goals over the arguments and fresh names; the names they may bind"""
    free = [n for n in NAMES if n not in ar]
    rng.shuffle(free)
    goals, bound = [], list(ar)

    def arg(): return V(rng.choice(bound)) if bound and rng.random() < .75 else V(free[0])
    if top and rng.random() < .85: goals.append(A("output_type", rng.choice(["t1", "t2", "t3"])))
    for _ in range(rng.choice([0, 1, 1, 2]) if goals else rng.choice([1, 1, 2])):
        r = rng.random()
        new = free[0]
        if r < .2: goals.append(A("output_value", V(new) if not bound or rng.random() < .7 else V(rng.choice(bound))))
        elif r < .35: goals.append(A(rng.choice(["output_subject", "output_object"]), arg(), V(new)))
        elif r < .55: goals.append(A("label", arg(), V(new)))
        elif r < .65: goals.append(A(rng.choice(["name", "kind"]), arg(), V(new)))
        elif r < .7: goals.append(A("n", arg()))
        elif r < .75: goals.append(A("not", L(A("known", arg()))))
        elif r < .8: goals.append(A("equals", arg(), rng.choice(ids + names)))
        elif r < .85: goals.append(A("count", V(new), L(A("name", V(free[1]), V(free[2])))))
        elif r < .9: goals.append(A("find_all", {"k": "s", "s": free[1]}, L(A("n", V(free[1]))), V(new)))
        elif r < .91: goals.append(A("nonsense", V(new)))
        else: goals.append(A("output_list", V(new)))
        if new not in bound:
            bound.append(new); free.remove(new)
        if len(free) < 3: break
    return goals, bound


def rand_rules(rng, ids, names):
    cats = {"s": 0}
    for c in ["np", "vp", "ap", "item"][:rng.randint(1, 4)]: cats[c] = rng.choice([0, 1, 1, 2])
    order = list(cats)
    rules, seen = [], set()

    def add(r):
        key = (render_write(r), r["has"])
        if not r["has"] and key in seen: return
        seen.add(key); rules.append(r)
    for lev, c in enumerate(order):
        lower = order[lev + 1:]
        for _ in range(rng.randint(1, 3 if lev else 4)):
            ar = rng.sample(NAMES, cats[c])
            cond, bound = (cond_for(rng, ar, ids, names, lev == 0) if rng.random() < (.85 if lev == 0 else .6) else ([], list(ar)))
            rhs, exec_ = [], ""
            for k in range(rng.choice([1, 1, 2, 3, 4])):
                j = "+" if rng.random() < .25 else " "
                # a repeated category: the second time other rules are to be used
                r = rng.random()
                vs = lambda n: [rng.choice(bound + NAMES[:1]) if bound else rng.choice(NAMES) for _ in range(n)]
                if r < .3: rhs.append(W(rng.choice(WORDS), j))
                elif r < .4: rhs.append(R("value", vs(1), j=j))
                elif r < .55: rhs.append(R("text", vs(1), j=j))
                elif r < .63:
                    exec_ = exec_ or rng.choice(["wrap", "wrap", "list", "first", "n", "boom" if rng.random() < .2 else "n"])
                    rhs.append(R("format", vs(rng.randint(1, 2)), j=j))
                elif lower:
                    d = rng.choice(lower)
                    rhs.append(R(d, vs(cats[d]), rng.random() < .4, j))
                    if rng.random() < .3: rhs.append(R(d, vs(cats[d]), rng.random() < .3, rng.choice("+ ")))
                else: rhs.append(W(rng.choice(WORDS), j))
            post = "wrap" if rng.random() < .2 else "boom" if rng.random() < .02 else ""
            add(rule(c, ar, rhs, cond, exec_, post))
            if cond and rng.random() < .15:
                # the same syntax under another condition
                add(rule(c, ar, rhs, cond_for(rng, ar, ids, names, lev == 0)[0], exec_, "" if post else "wrap"))
    if rng.random() < .5:
        # a last resort
        rules.append(rule("s", [], [W("sorry")] if rng.random() < .5 or cats[order[1]] else [W("no"), R(order[1], [], True), R(order[1], [])]))
    if rng.random() < .15:
        # a long text: what was used stays used
        for x in rng.sample(WORDS, rng.choice([2, 3])): rules.append(rule("first", [], [W(x)], post=rng.choice(["", "wrap"])))
        for x in rng.sample(WORDS, rng.choice([1, 2, 4])): rules.append(rule("again", [], [W(x)]))
        rules.insert(0, rule("s", [], [R("first", [])] + [R("again", [], j=rng.choice("+ ")) for _ in range(rng.choice([9, 14, 30, 70]))] + [R("first", [])] * rng.choice([1, 2])))
    if rng.random() < .3 and "item" in cats:
        # a list, one element after the other
        rules.insert(0, rule("s", [], [R("chain", ["E1"])], [A("output_value", V("E1")), A("next", V("E1"), V("E2"))]))
        for _ in range(rng.choice([2, 4])):
            rules.append(rule("chain", ["E1"], [R("text", ["E1"]), W(rng.choice([",", ";", " and"]), "+"), R("chain", ["E2"])], [A("next", V("E1"), V("E2"))]))
        rules.append(rule("chain", ["E1"], [R("text", ["E1"]), W(".", "+")]))
        if rng.random() < .5: rules.append(rules.pop(len(rules) - 2))
    return rules


def rand_stores(rng, ids, names, anyv):
    out = []

    def atom():
        r = rng.random()
        if r < .35: return A("output_type", rng.choice(["t1", "t2", "t3"]))
        if r < .6: return A("output_value", rng.choice(anyv))
        if r < .75: return A(rng.choice(["output_subject", "output_object"]), rng.choice(ids), rng.choice(ids))
        if r < .85: return A("output_list", L(*[rng.choice(anyv) for _ in range(rng.randint(0, 3))]))
        if r < .9: return A("output_no_sentence")
        if r < .95: return A("output_value_with_unit", rng.choice(anyv), "km")
        return A("name", rng.choice(ids), rng.choice(names))
    if rng.random() < .12:
        # something for every relation of the buffer
        every = [A(p, *[rng.choice(anyv) for _ in range(n)]) for p, n in BUILTIN.items() if p != "output_type"]
        rng.shuffle(every)
        out.append({"op": "solve", "goals": [A("store", L(*every))]})
    for _ in range(rng.choice([0, 1, 2, 2, 3])):
        out.append({"op": "write", "atom": atom()} if rng.random() < .5 else {"op": "solve", "goals": [A("store", L(*[atom() for _ in range(rng.randint(1, 2))]))]})
    return out


def rand_case(rng, rounds, facts):
    mods, ob, fm, ids, names, anyv = world(rng)
    rules = rand_rules(rng, ids, names)
    ops = []
    for i in range(rounds):
        if rng.random() < .8: ops.append({"op": "write", "atom": A("output_type", rng.choice(["t1", "t2"]))})
        ops += rand_stores(rng, ids, names, anyv)
        if rng.random() < .85 or i == rounds - 1: ops.append({"op": "read", "sys": rng.random() < .5})
        if facts:
            ops.append({"op": "facts", "m": fm, "p": rng.choice(["name", "next"])})
            ops.append({"op": "solve", "goals": [A(rng.choice(["output_value", "output_type", "output_list"]), V("X"))]})
    texts = [t for t in {str(x): x for x in [enc(v) for v in NUM + [None]]}.values() if t["k"] not in ("s", "i")]
    return {"mods": mods, "ob": ob, "rules": rules, "texts": texts, "ops": ops}


def cases_C18(rng, tier): return [rand_case(rng, rng.choice([1, 1, 2, 3]), False) for _ in range(500 if tier == "quick" else 6000)]
def cases_C19(rng, tier): return [rand_case(rng, rng.choice([2, 3, 4, 6]), True) for _ in range(300 if tier == "quick" else 4000)]


def replay(behaviours, rng, tier):
    bs = sorted(behaviours, key=lambda b: str(b["ops"]))
    if tier == "quick": bs = rng.sample(bs, min(len(bs), 400))
    out = []
    for b in bs:
        mods = [dict(b["mods"][0], impl="buffer"), dict(b["mods"][1], impl="simple")]
        mods[0]["rels"] = dict({p: {"ar": n, "w": True} for p, n in BUILTIN.items()}, **mods[0]["rels"])
        mods[0]["rows"] = {p: [] for p in mods[0]["rels"]}
        out.append({"mods": mods, "ob": 1, "rules": b["rules"], "texts": [], "ops": b["ops"] + [{"op": "facts", "m": 2, "p": "n"}]})
    return out


def replay_grammars(behaviours, rng, tier):
    """The grammars and contents of MC_Generate: written, read, and again."""
    bs = sorted(behaviours, key=str)
    bs = rng.sample(bs, min(len(bs), 400 if tier == "quick" else 6000))
    bs = [dict(b, ops=b["ops"] + [{"op": "read", "sys": rng.random() < .5}]) for b in bs]
    bs = [dict(b, ops=b["ops"] * 2) for b in bs]
    return replay([dict(b, rules=[dict(r, rhs=[dict(c) for c in r["rhs"]]) for r in b["rules"]]) for b in bs], rng, "thorough")


def P(cases, **kw):
    d = dict(cases=cases, run=run, trace="Trace_Generate", nontrivial=nontrivial, mc=[])
    d.update(kw)
    return d


PROPS = {"C18": P(cases_C18, mc=[{"module": "MC_Generate", "cfg": "MC_Generate_q", "replay": replay_grammars, "only": "quick"},
                                 {"module": "MC_Generate", "cfg": "MC_Generate_t", "replay": replay_grammars, "only": "thorough", "tier": "thorough",
                                  "workers": "8", "timeout": 800}]), "C19": P(cases_C19, mc=[{"module": "MC_Output", "replay": replay, "only": "quick"},
                                 {"module": "MC_Output", "cfg": "MC_Output_t", "tier": "thorough", "replay": replay}])}
