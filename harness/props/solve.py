"""C09-C13, C15: the goal interpreter."""
import json, random
from common import enc, dec, V, RV, L, T, A
from props.model import build_model, spec_mods, enc_binding, enc_answers, cols

# ------------------------------------------------------------------ running


def run(case):
    from richard.core.Solver import Solver
    rng = random.Random(json.dumps(case["mods"], sort_keys=True))
    for m in case["mods"]:
        # what is declared about the size of a relation means nothing to the solver
        if m["kind"] == "table" and "sizes" not in m and rng.random() < .5:
            m["sizes"] = {p: {"size": rng.choice([-1, 1, 10, 1000]), "args": [rng.choice([-1, 1, 10, 1000]) for _ in range(r["ar"])]}
                          for p, r in m["rels"].items() if rng.random() < .8}
    model, modules = build_model(case["mods"])
    solver = Solver(model)
    events = [{"op": "init", "mods": spec_mods(case["mods"])}]
    for op in case["ops"]:
        ev = dict(op)
        if op["op"] == "solve":
            goals = [dec(g) for g in op["goals"]]
            b = {n: dec(t) for n, t in op["b"].items()}
            s = solver if not op.get("fresh") else Solver(model)
            try:
                r = s.solve(goals, b) if b or op.get("nob") is None else s.solve(goals)
                ev["out"] = {"e": False, "r": enc_answers(r)}
            except RecursionError:
                ev["out"] = {"e": True, "r": []}
            except Exception as e:
                ev["out"] = {"e": True, "r": [], "why": repr(e)[:200]}
            ev["bafter"] = enc_binding(b)
            ev.setdefault("ordered", True)
        elif op["op"] == "write":
            try:
                solver.write_atom(dec(op["atom"]))
                ev["out"] = {"e": False}
            except Exception as e:
                ev["out"] = {"e": True, "why": repr(e)[:200]}
        elif op["op"] == "clear":
            try:
                modules[op["m"] - 1].clear()
                ev["out"] = {"e": False}
            except Exception as e:
                ev["out"] = {"e": True, "why": repr(e)[:200]}
        elif op["op"] == "facts":
            m = case["mods"][op["m"] - 1]
            try:
                mod = modules[op["m"] - 1]
                c = mod.get_relations()[op["p"]].arguments
                rows = mod.data_source.select(op["p"], c, [None] * len(c))
                ev["out"] = {"e": False, "r": [[enc(x) for x in row] for row in rows]}
            except Exception as e:
                ev["out"] = {"e": True, "r": [], "why": repr(e)[:200]}
        events.append(ev)
    return events


def nontrivial(case, events):
    return any(e["op"] == "solve" and (e["out"]["e"] or e["out"]["r"]) for e in events)


# ------------------------------------------------------------------ values

STRINGS = ["a", "b", "", " ", "None", "$1", "E1", "X", "it's", 'say "x"', "É", "0", "1", "%s", "a\\b", "[]", "not", "c0"]
INTS = [0, 1, -1, 2, 7, 10]
RATS = [0.5, -1.5, 2.25]


def consts(rng, n, kind="any"):
    """n pairwise different values as terms"""
    if kind == "int":
        pool = INTS + [3, 4, 5, 12]
    elif kind == "num":
        pool = INTS + RATS
    elif kind == "str":
        pool = STRINGS
    else:
        pool = STRINGS[:]
        pool += INTS + RATS
        if kind == "obj" and rng.random() < .3:
            pool = [p for p in pool if p not in (0, 1)] + [False, True]
    # make sure the awkward values are frequent
    awk = [v for v in pool if v in ("", 0, "0") or v is False]
    picks = rng.sample(pool, min(n, len(pool)))
    if rng.random() < .6:
        a = rng.choice(awk) if awk else None
        if a is not None and not any(a == p and type(a) == type(p) for p in picks):
            picks[0] = a
    if kind in ("any", "obj") and rng.random() < .3:
        # almost the same value
        picks = picks[:max(1, n - 2)] + rng.choice([[7, "7"], [0, "0"], [1, "1"], [0.5, "0.5"], ["a", "A"], ["a", "a "], ["", " "], [-1, "-1"], [10, 1], ["E1", "$1"]])
        picks = [p for i, p in enumerate(picks) if not any(p == q for q in picks[:i])]
    return [enc(p) for p in picks]


VARNAMES = ["E1", "E2", "E3", "X", "Y", "$1", "A"]


def rand_table(rng, preds, pool, nrows, w=True, impls=("simple", "sqlite", "memory"), dup=.15):
    impl = rng.choice(impls)
    rels, rows = {}, {}
    for p, ar in preds:
        rels[p] = {"ar": ar, "w": True if impl in ("memory", "buffer") else w}
        rs = []
        for _ in range(rng.randint(0, nrows)):
            row = [rng.choice(pool) for _ in range(ar)]
            if rng.random() < dup and rs:
                row = rng.choice(rs)
            rs.append(row)
        rows[p] = rs
    return {"kind": "table", "impl": impl, "rels": rels, "rows": rows}


def rand_atom(rng, preds, vs, pool, pconst=.25):
    p, ar = rng.choice(preds)
    return A(p, *[rng.choice(pool) if rng.random() < pconst else V(rng.choice(vs)) for _ in range(ar)])


def rand_binding(rng, vs, pool, p=.5, extra=True):
    b = {}
    if rng.random() < p:
        for v in vs:
            if rng.random() < .35:
                b[v] = rng.choice(pool)
    if extra and rng.random() < .2:
        b["Q9"] = rng.choice(pool)
    return b


# ------------------------------------------------------------------ C09


def cases_C09(rng, tier):
    n = 700 if tier == "quick" else 2500
    out = []
    for _ in range(n):
        kind = rng.choice(["any", "any", "int", "str"])
        pool = consts(rng, rng.randint(2, 4), kind)
        if rng.random() < .1: pool = [enc(x) for x in rng.choice([[7, "7"], [0, "0", ""], [1, "1"], [0.5, "0.5"], ["a", "A"], ["", " "], [-1, "-1", 1]])]
        npred = rng.randint(1, 3)
        preds = [(f"p{i}", rng.randint(1, 3)) for i in range(npred)]
        small = rng.random() < .3
        mods = []
        for p in preds:
            mods.append(rand_table(rng, [p], pool, 3 if small else 5))
        if rng.random() < .5:
            mods = [rand_table(rng, preds, pool, 3 if small else 5)]
        if rng.random() < .3:
            # facts from code, which does not look at the question
            k = rng.randrange(len(mods)); m = mods[k]
            mods[k] = {"kind": "fixed", "rels": {p: {"ar": r["ar"], "w": False} for p, r in m["rels"].items()}, "rows": m["rows"]}
            if rng.random() < .5 and len(pool) > 1:
                for p, ar in m["rels"].items():
                    # the same rows, up to one value
                    rs = mods[k]["rows"][p]
                    if rs: rs.insert(rng.randint(0, len(rs)), [rng.choice(pool) if i == 0 else x for i, x in enumerate(rng.choice(rs))])
        vs = rng.sample(VARNAMES, rng.randint(1, 4))
        ops = []
        for _ in range(rng.randint(1, 3)):
            k = rng.choice([0, 1, 1, 2, 2, 2, 3, 3] + ([4] if small else []))
            extra = consts(rng, 1, kind)
            goals = [rand_atom(rng, preds, vs, pool + extra) for _ in range(k)]
            ops.append({"op": "solve", "goals": goals, "b": rand_binding(rng, vs, pool), "fresh": rng.random() < .3})
        out.append({"mods": mods, "ops": ops})
    return out


# ------------------------------------------------------------------ C10


def cases_C10(rng, tier):
    n = 700 if tier == "quick" else 2500
    out = []
    for _ in range(n):
        pool = consts(rng, rng.randint(2, 4))
        preds = [(f"p{i}", rng.randint(1, 3)) for i in range(3)]
        mods = []
        for _ in range(rng.randint(2, 4)):
            mine = [p for p in preds if rng.random() < .7]
            if not mine:
                continue
            r = rng.random()
            if r < .55:
                mods.append(rand_table(rng, mine, pool, 4, w=rng.random() < .6))
            elif r < .9:
                rels, rows = {}, {}
                for p, ar in mine:
                    a = ar
                    if rng.random() < .06:
                        a = -1
                    elif rng.random() < .05:
                        a = ar + 1
                    elif rng.random() < .03:
                        a = -2
                    rels[p] = {"ar": a, "w": False}
                    w = abs(a) if a > 0 else ar
                    rows[p] = [[{"k": "n"} if rng.random() < .25 else rng.choice(pool) for _ in range(w)]
                               for _ in range(rng.randint(0, 3))]
                mods.append({"kind": "fixed", "rels": rels, "rows": rows})
            else:
                rules = []
                for p, ar in mine:
                    for _ in range(rng.randint(1, 2)):
                        rules.append({"head": A(p, *[rng.choice(pool) for _ in range(ar)]), "body": []})
                mods.append({"kind": "infer", "impl": rng.choice(["text", "obj"]), "rules": rules})
        vs = rng.sample(VARNAMES, 3)
        known = preds
        ops = []
        tables = [(i + 1, p) for i, m in enumerate(mods) if m["kind"] == "table" for p in m["rels"]]

        def atom(depth=0):
            r = rng.random()
            if r < .04:
                return A("unknown_predicate", V(vs[0]))
            if r < .2 and depth == 0:
                return A("$disjunction", L(*[L(*[atom(1) for _ in range(rng.randint(1, 2))])
                                             for _ in range(rng.randint(1, 3))]))
            return rand_atom(rng, preds, vs, pool)
        for _ in range(rng.randint(2, 4)):
            if rng.random() < .35:
                p, ar = rng.choice(preds + [("unknown_predicate", 1)] * (rng.random() < .2))
                a = A(p, *[rng.choice(pool) for _ in range(ar)])
                if rng.random() < .5:
                    ops.append({"op": "write", "atom": a})
                else:
                    ops.append({"op": "solve", "goals": [A("store", L(a))], "b": {}})
                for m, p in tables:
                    ops.append({"op": "facts", "m": m, "p": p})
            else:
                ops.append({"op": "solve", "goals": [atom() for _ in range(rng.choice([1, 1, 1, 2, 2]))],
                            "b": rand_binding(rng, vs, pool, .4)})
        out.append({"mods": mods, "ops": ops})
    return out


# ------------------------------------------------------------------ C11


def cases_C11(rng, tier):
    n = 800 if tier == "quick" else 2500
    return [case_C11(rng) for _ in range(n)]


def long_chain(rng):
    """a rule that is used inside itself many times"""
    n = rng.choice([12, 30, 45, 60])
    c = [enc(f"c{i}") if rng.random() < .9 else enc(i) for i in range(n)]
    rows = [[c[i], c[i + 1]] for i in range(n - 1)]
    if rng.random() < .3: rng.shuffle(rows)
    x, y, z = rng.sample(["X", "Y", "Z", "E1"], 3)
    rules = [{"head": A("anc", V(x), V(y)), "body": [A("up", V(x), V(y))]},
             {"head": A("anc", V(x), V(y)), "body": [A("up", V(x), V(z)), A("anc", V(z), V(y))]},
             {"head": A("last", V(x)), "body": [A("anc", c[0], V(x)), A("not", L(A("up", V(x), V(y))))]}]
    mods = [{"kind": "table", "impl": rng.choice(["simple", "sqlite"]), "rels": {"up": {"ar": 2, "w": True}}, "rows": {"up": rows}},
            {"kind": "infer", "impl": rng.choice(["text", "obj"]), "rules": rules}]
    goals = [[A("anc", c[0], V("E1"))], [A("anc", c[rng.choice([0, 1, 2])], c[-1])], [A("last", V("E2"))]]
    return {"mods": mods, "ops": [{"op": "solve", "goals": g, "b": {}} for g in rng.sample(goals, 2)]}


def case_C11(rng):
    pool = consts(rng, rng.randint(2, 4))
    base = [("b0", 1), ("b1", 2), ("b2", 2)]
    mods = [rand_table(rng, base, pool, 4)]
    level = {p: 0 for p, _ in base}
    ars = dict(base)
    names = ["X", "Y", "Z", "E1", "E2", "$1"]
    rules = []
    # an acyclic relation for recursion
    order = pool[:]
    mods[0]["rels"]["up"] = {"ar": 2, "w": True}
    mods[0]["rows"]["up"] = [[order[i], order[j]] for i in range(len(order)) for j in range(i + 1, len(order))
                             if rng.random() < .6]
    ars["up"] = 2; level["up"] = 0
    if rng.random() < .02: return long_chain(rng)

    def atom(maxlev, vs, pc=.12):
        cands = [p for p in ars if level[p] < maxlev]
        p = rng.choice(cands)
        return A(p, *[rng.choice(pool) if rng.random() < pc else V(rng.choice(vs)) for _ in range(ars[p])])

    def body(maxlev, vs, k, deep=0):
        out = []
        for _ in range(k):
            r = rng.random()
            if r < .1 and deep == 0:
                out.append(A("$disjunction", L(*[L(*body(maxlev, vs, rng.randint(1, 2), 1))
                                                 for _ in range(rng.randint(2, 3))])))
            elif r < .18 and deep == 0:
                out.append(A("not", L(*body(maxlev, vs, rng.randint(1, 2), 1))))
            elif r < .22 and deep == 0:
                out.append(A("find_all", {"k": "s", "s": vs[0]}, L(*body(maxlev, vs, 1, 1)), V("L")))
            else:
                out.append(atom(maxlev, vs))
        return out
    for lev in range(1, rng.randint(2, 4)):
        for _ in range(rng.randint(1, 2)):
            p = f"d{lev}{rng.choice('ab')}"
            if p not in ars:
                ars[p] = rng.randint(1, 3); level[p] = lev
            for _ in range(rng.randint(1, 2)):
                vs = rng.sample(names, 3)
                head = A(p, *[rng.choice(pool) if rng.random() < .15 else V(rng.choice(vs)) for _ in range(ars[p])])
                r = rng.random()
                if r < .2:
                    rules.append({"head": head, "body": []})
                else:
                    rules.append({"head": head, "body": body(lev, vs, rng.choice([1, 1, 2, 2, 3]))})
    if rng.random() < .6:
        ars["anc"] = 2; level["anc"] = 1
        x, y, z = rng.sample(names, 3)
        rs = [{"head": A("anc", V(x), V(y)), "body": [A("up", V(x), V(y))]},
              {"head": A("anc", V(x), V(y)), "body": [A("up", V(x), V(z)), A("anc", V(z), V(y))]}]
        rng.shuffle(rs)
        rules += rs
    if rng.random() < .5:
        rng.shuffle(rules)
    mods.insert(rng.randint(0, 1), {"kind": "infer", "impl": rng.choice(["text", "obj"]), "rules": rules})
    ops = []
    defined = sorted(ars)
    vs = rng.sample(names, 3)
    for _ in range(rng.randint(2, 4)):
        r = rng.random()
        if r < .2:
            # learn a rule about a new or existing predicate; variables bound in the question are substituted
            lp = rng.choice([p for p in ars if level[p] > 0 and p != "anc"] + ["new1"])
            if lp not in ars:
                ars[lp] = rng.randint(1, 2); level[lp] = 4
            lv = rng.sample(names, 3)
            goals = []
            if rng.random() < .6:
                goals.append(A("b1", V(lv[0]), V("K")))
            goals.append(A("learn_rule", A(lp, *[rng.choice([V(rng.choice(lv)), rng.choice(pool)]) for _ in range(ars[lp])]),
                           L(*[atom(max(1, level[lp]), lv) for _ in range(rng.randint(0, 2))])))
            ops.append({"op": "solve", "goals": goals, "b": rand_binding(rng, lv, pool, .4)})
            ops.append({"op": "solve", "goals": [A(lp, *[V(f"R{i}") for i in range(ars[lp])])], "b": {}})
        else:
            p = rng.choice([p for p in ars if level[p] > 0])
            goals = [A(p, *[rng.choice(pool) if rng.random() < .25 else V(rng.choice(vs)) for _ in range(ars[p])])]
            if rng.random() < .5:
                goals.insert(rng.randint(0, 1), atom(9, vs))
            ops.append({"op": "solve", "goals": goals, "b": rand_binding(rng, vs, pool, .5)})
    return {"mods": mods, "ops": ops}


# ------------------------------------------------------------------ C12


def cases_C12(rng, tier):
    n = 1300 if tier == "quick" else 3000
    return [case_C12(rng) for _ in range(n)]


def large_C12(rng):
    """quantifiers and aggregates over many entities"""
    n = rng.choice([11, 20, 33, 60])
    ents = [enc(f"x{i}") for i in range(n)]
    e2 = [[e] for e in ents]; rng.shuffle(e2)
    if rng.random() < .5: e2 = e2[:-1]
    rows = {"e1": [[e] for e in ents], "e2": e2, "val": [[e, enc(rng.choice([0, 1, 2, 3, -1, 50, i]))] for i, e in enumerate(ents)]}
    mods = [{"kind": "table", "impl": rng.choice(["simple", "sqlite", "memory"]), "rels": {"e1": {"ar": 1, "w": True}, "e2": {"ar": 1, "w": True}, "val": {"ar": 2, "w": True}}, "rows": rows}]
    e1, e2, val = A("e1", V("E1")), A("e2", V("E1")), A("val", V("E1"), V("N1"))
    body = lambda: rng.choice([[e1], [e2], [e1, e2], [e2, val], [val], [e1, A("not", L(e2))]])
    k = lambda: enc(rng.choice([n - 1, n, n + 1, 0, 10]))
    goals = [A("all", V("E1"), L(e1), L(e2)), A("all", V("E1"), L(e2), L(e1, val)), A("all", V("E1"), L(e1), L(val, A("greater_than", V("N1"), enc(-2)))),
             A("none", L(*body())), A("count", V("N6"), L(*body())), A("det_equals", L(*body()), k()), A("det_greater_than", L(*body()), k()), A("det_less_than", L(*body()), k()),
             A("sum", V("N8"), V("N1"), L(val)), A("avg", V("N8"), V("N1"), L(val)), A("arg_max", V("E1"), V("N1"), L(val)), A("arg_min", V("E1"), V("N1"), L(e2, val)),
             A("percentage", V("N7"), L(e2), L(e1)), A("find_all", enc("E1"), L(*body()), V("L1")), A("find_one", enc("E1"), L(*body()), V("L1")), A("find_all", enc("N1"), L(val), V("L1")), val]
    return {"mods": mods, "ops": [{"op": "solve", "goals": [g], "b": {}} for g in rng.sample(goals, 6)]}


def case_C12(rng):
    if rng.random() < .015: return large_C12(rng)
    ents = consts(rng, rng.randint(2, 4), "str" if rng.random() < .5 else "any")
    nums = consts(rng, rng.randint(2, 5), "num" if rng.random() < .3 else "int")
    # keep the two pools different under ==
    ents = [e for e in ents if e["k"] in ("s", "o")] or [{"k": "s", "s": "a"}]
    if len(ents) < 2:
        ents.append({"k": "s", "s": "zz"})
    ents = [e for i, e in enumerate(ents) if e not in ents[:i]]
    preds = {"e1": "e", "e2": "e", "rel": "ee", "val": "en", "val2": "en", "n1": "n"}
    rels = {p: {"ar": len(t), "w": True} for p, t in preds.items()}
    impl = rng.choice(["simple", "sqlite", "memory"])
    rows = {p: [[rng.choice(ents if c == "e" else nums) for c in t]
                for _ in range(rng.choice([0, 1, 2, 3, 4]))] for p, t in preds.items()}
    mods = [{"kind": "table", "impl": impl, "rels": rels, "rows": rows}]
    EV = ["E1", "E2", "E3"]
    NV = ["N1", "N2"]
    iters = {}
    if rng.random() < .2:
        # how many there are, without what they are
        iters = {p: rng.choice([0, 1, 2, 3, 1000000]) for p in ("many", "most")}
        if rng.random() < .3: iters = dict.fromkeys(iters, rng.choice([7, 12, 21, 100, 1001]))
        mods.insert(rng.randint(0, 1), {"kind": "iter", "rels": {p: {"ar": 1, "n": n} for p, n in iters.items()}})
        if rng.random() < .15: mods.append({"kind": "fixed", "rels": {"most": {"ar": 1, "w": False}}, "rows": {"most": [[ents[0]]]}})

    def fact(ev=EV, nv=NV, pc=.15):
        p = rng.choice(list(preds))
        return A(p, *[rng.choice(ents if c == "e" else nums) if rng.random() < pc
                      else V(rng.choice(ev if c == "e" else nv)) for c in preds[p]])

    def bodyl(depth, ev=EV, nv=NV):
        if iters and rng.random() < .4: return [A(rng.choice(list(iters)), V(rng.choice(ev)))]
        k = rng.choice([0, 1, 1, 1, 2, 2, 3]) if depth else rng.choice([1, 1, 2, 2, 3])
        return [goal(depth - 1, ev, nv) if depth > 0 and rng.random() < .3 else fact(ev, nv) for _ in range(k)]

    def valbody(depth):
        b = [A(rng.choice(["val", "val2"]), V("E1"), V("N1"))]
        if rng.random() < .5:
            b.append(fact())
        if depth > 0 and rng.random() < .2:
            b.append(goal(depth - 1))
        return b

    focus = rng.choice(["arg_min", "arg_max", "sum", "avg", "count", "all", "percentage"]) if rng.random() < .2 else None
    if focus:
        # a few facts with interesting values, in any order
        nums = [enc(x) for x in rng.choice([[0, -1, -3], [0, 1, 2], [-1, -2, 0, 3], [0, 0.5, -1.5], [2, 2.25, 7]])]
        for p in ("val", "val2"): rows[p] = [[rng.choice(ents), rng.choice(nums)] for _ in range(rng.choice([1, 2, 3, 4, 5]))]

    def goal(depth, ev=EV, nv=NV):
        r = focus if focus and rng.random() < .6 else rng.choice(["equals", "greater_than", "less_than", "multiply", "arg_min", "arg_max", "sum", "avg", "percentage",
                        "count", "not", "let", "det_equals", "det_greater_than", "det_less_than", "all", "none", "scoped",
                        "store", "destructure", "find_all", "find_one", "fact"])
        d = depth
        if r == "fact":
            return fact(ev, nv)
        if r == "equals":
            k = rng.random()
            if k < .5:
                return A("equals", V(rng.choice(ev)), rng.choice([V(rng.choice(ev)), rng.choice(ents)]))
            return A("equals", rng.choice([V(rng.choice(nv)), rng.choice(nums)]), rng.choice([V(rng.choice(nv)), rng.choice(nums)]))
        if r in ("greater_than", "less_than"):
            return A(r, rng.choice([V(rng.choice(nv)), rng.choice(nums)]), rng.choice([V(rng.choice(nv)), rng.choice(nums)]))
        if r == "multiply":
            return A(r, rng.choice([V(rng.choice(nv)), rng.choice(nums)]), rng.choice([V(rng.choice(nv)), rng.choice(nums)]),
                     rng.choice([V("N9"), V("N9"), V(rng.choice(nv)), rng.choice(nums)]))
        if r in ("arg_min", "arg_max"):
            return A(r, V("E1"), V("N1"), L(*valbody(d)))
        if r in ("sum", "avg"):
            return A(r, V("N8"), V("N1"), L(*valbody(d)))
        if r == "percentage":
            return A(r, V("N7"), L(*bodyl(d, ev, nv)), L(*bodyl(d, ev, nv)))
        if r == "count":
            return A(r, rng.choice([V("N6"), V("N6"), enc(rng.randint(0, 3))]), L(*bodyl(d, ev, nv)))
        if r in ("not", "none", "scoped"):
            return A(r, L(*bodyl(d, ev, nv)))
        if r == "let":
            return A(r, V(rng.choice(["N5", "N5"] + ev)), rng.choice(ents + nums + [V(rng.choice(ev))]))
        if r.startswith("det_"):
            return A(r, L(*bodyl(d, ev, nv)), rng.choice([enc(rng.randint(0, 3)), enc(rng.randint(0, 3)), V("N1")]))
        if r == "all":
            q = rng.choice(ev)
            rngb = [A(rng.choice(["e1", "e2"]), V(q))]
            if rng.random() < .4:
                rngb.append(fact(ev, nv))
            return A("all", V(q), L(*rngb), L(*bodyl(d, [q, rng.choice(ev)], nv)))
        if r == "store":
            p = rng.choice(list(preds))
            return A("store", L(*[A(p, *[rng.choice(ents if c == "e" else nums) for c in preds[p]])
                                  for _ in range(rng.randint(0, 2))]))
        if r == "destructure":
            f = fact(ev, nv, .3)
            args = [({"k": "s", "s": f["t"][0]["s"]} if rng.random() < .7 else V("P1"))]
            for x in f["t"][1:]:
                args.append(V(rng.choice(["D1", "D2"])) if rng.random() < .6 else rng.choice([x, rng.choice(ents)]))
            if rng.random() < .1:
                args.append(V("D3"))
            return A("destructure", L(f), *args)
        name = rng.choice(ev)
        which = {"k": "s", "s": name} if rng.random() < .6 else L({"k": "s", "s": name}, {"k": "s", "s": rng.choice(ev + nv)})
        b = bodyl(d, ev, nv)
        return A(r, which, L(*b), rng.choice([V("L1"), V("L1"), V("L2")]))

    ops = []
    for _ in range(rng.randint(2, 4)):
        goals = []
        if rng.random() < .6:
            goals.append(rng.choice([A("e1", V("E1")), A("rel", V("E1"), V("E2")), A("val", V("E1"), V("N1"))]))
        goals += [goal(2) for _ in range(rng.choice([1, 1, 1, 2]))]
        if rng.random() < .3:
            goals.append(fact())
        if iters and rng.random() < .15: goals = rng.choice([[A("$disjunction", L(L(A("many", V("E1"))), L(A("most", V("E1")))))], [A("most", V("E1"))], [A("many", V("E1"))]])
        b = {}
        if rng.random() < .4:
            for v in EV:
                if rng.random() < .4: b[v] = rng.choice(ents)
            for v in NV:
                if rng.random() < .4: b[v] = rng.choice(nums)
        ops.append({"op": "solve", "goals": goals, "b": b})
    return {"mods": mods, "ops": ops}


# ------------------------------------------------------------------ C13


def cases_C13(rng, tier):
    n = 450 if tier == "quick" else 2000
    out = []
    for _ in range(n):
        pool = consts(rng, rng.randint(2, 4))
        preds = [(f"p{i}", rng.randint(1, 3)) for i in range(rng.randint(1, 3))]
        mods = []
        for k in range(rng.randint(1, 2)):
            mods.append(rand_table(rng, preds if k == 0 else rng.sample(preds, 1), pool, 2, impls=("simple", "sqlite", "memory", "buffer")))
        if rng.random() < .7:
            mods.insert(rng.randint(0, len(mods)), {"kind": "infer", "impl": "obj", "rules": []})
        infer = any(m["kind"] == "infer" for m in mods)
        tables = [(i + 1, p) for i, m in enumerate(mods) if m["kind"] == "table" for p in m["rels"]]
        vs = rng.sample(VARNAMES, 3)
        heads = {}
        plearn = rng.choice([.1, .1, .3])
        ops = []

        asked = []

        def q():
            # often a question that was asked before
            if asked and rng.random() < .4: return rng.choice(asked)
            asked.append(q1())
            return asked[-1]

        def q1():
            p, ar = rng.choice(preds + list(heads.items()))
            return A(p, *[rng.choice(pool) if rng.random() < .3 else V(rng.choice(vs)) for _ in range(ar)])
        for _ in range(rng.randint(5, 12)):
            r = rng.random()
            if r < .35:
                p, ar = rng.choice(preds)
                goals = []
                b = {}
                args = []
                for _ in range(ar):
                    if rng.random() < .3:
                        v = rng.choice(vs); b[v] = rng.choice(pool); args.append(V(v))
                    else:
                        args.append(rng.choice(pool))
                atoms = [A(p, *args)]
                if rng.random() < .3:
                    p2, ar2 = rng.choice(preds)
                    atoms.append(A(p2, *[rng.choice(pool) for _ in range(ar2)]))
                goals = [A("store", L(*atoms))]
                if rng.random() < .25:
                    # store once per answer, with the answer's values
                    p3, ar3 = rng.choice(preds)
                    src = A(p3, *[V(f"S{i}") for i in range(ar3)])
                    goals = [src, A("store", L(A(p, *[rng.choice([V(f"S{i % ar3}"), rng.choice(pool)]) for i in range(ar)])))]
                    b = {}
                ops.append({"op": "solve", "goals": goals, "b": b})
            elif r < .45:
                p, ar = rng.choice(preds)
                ops.append({"op": "write", "atom": A(p, *[rng.choice(pool) for _ in range(ar)])})
            elif r < .45 + plearn and infer:
                h = rng.choice(["h0", "h1"])
                ar = heads.setdefault(h, rng.randint(1, 2))
                lv = rng.sample(VARNAMES, 2)
                p, par = rng.choice(preds)
                b = {lv[0]: rng.choice(pool)} if rng.random() < .5 else {}
                body = [A(p, *[V(rng.choice(lv)) for _ in range(par)])] if rng.random() < .7 else []
                if rng.random() < .4:
                    p, par = rng.choice(preds)
                    nested = L(A(p, *[V(rng.choice(lv)) for _ in range(par)]))
                    body.append(rng.choice([A("not", nested), A("scoped", nested), A("$disjunction", L(nested, L(A("equals", 1, 2)))), A("count", V("N"), nested)]))
                ops.append({"op": "solve", "goals": [A("learn_rule", A(h, *[V(rng.choice(lv)) if rng.random() < .6 else rng.choice(pool)
                                                                            for _ in range(ar)]), L(*body))], "b": b})
                if rng.random() < .6: ops.append({"op": "solve", "goals": [A(h, *[V(f"R{i}") for i in range(ar)])], "b": {}})
            elif r < .52 + plearn:
                m = rng.choice([i + 1 for i, m in enumerate(mods) if m["kind"] == "table"])
                ops.append({"op": "clear", "m": m})
                for a in asked[-2:]: ops.append({"op": "solve", "goals": [a], "b": {}})
            else:
                ops.append({"op": "solve", "goals": [q() for _ in range(rng.choice([1, 1, 2]))], "b": rand_binding(rng, vs, pool, .3),
                            "fresh": rng.random() < .5})
            if rng.random() < .4:
                m, p = rng.choice(tables)
                ops.append({"op": "facts", "m": m, "p": p})
        for m, p in tables:
            ops.append({"op": "facts", "m": m, "p": p})
        out.append({"mods": mods, "ops": ops})
    return out


# ------------------------------------------------------------------ C15


def cases_C15(rng, tier):
    n = 300 if tier == "quick" else 2000
    out = []
    for _ in range(n):
        names = [{"k": "s", "s": s} for s in rng.sample(["a", "b", "question", "it's", "", "E1", "None"], 3)]
        pool = consts(rng, 2)
        mods = [{"kind": "ctx", "rels": {"dialog_isa": {"ar": 2, "w": True}, "context": {"ar": 1, "w": True}},
                 "rows": {"dialog_isa": [], "context": []}},
                rand_table(rng, [("p0", 1), ("p1", 1)], pool, 2)]

        def goal(depth):
            r = rng.random()
            nm = rng.choice(names)
            if r < .22: return A("start_context", nm)
            if r < .36: return A("end_context", nm)
            if r < .5 and depth < 2 or (depth == 0 and r < .6):
                return A("with_context", nm, L(*[goal(depth + 1) for _ in range(rng.randint(0, 4))]))
            if r < .7: return A("context", nm)
            if r < .76: return A("context", V("C"))
            if r < .81: return A("not", L(A("context", nm)))
            if r < .86: return A("unknown_predicate")
            if r < .9: return A("store", L(A("p1", rng.choice(pool))))
            if r < .93: return A("find_all", {"k": "s", "s": "C"}, L(A("context", V("C"))), V("L"))
            return A("p0", V("X"))
        ops = []
        for _ in range(rng.randint(3, 9)):
            k = rng.choice([1, 1, 2, 3])
            ops.append({"op": "solve", "goals": [goal(0) for _ in range(k)], "b": {}, "ordered": False})
            ops.append({"op": "solve", "goals": [A("context", rng.choice(names))], "b": {}, "ordered": False})
        for nm in names:
            ops.append({"op": "solve", "goals": [A("context", nm)], "b": {}})
        out.append({"mods": mods, "ops": ops})
    return out


def fn(x): return x if isinstance(x, dict) else {}


def pick(behaviours, rng, n):
    bs = sorted(behaviours, key=lambda b: json.dumps(b, sort_keys=True))
    return rng.sample(bs, min(len(bs), n))


def replay_query(behaviours, rng, tier):
    """the queries that TLC enumerated (MC_Query), against the same facts"""
    groups = {}
    for b in pick(behaviours, rng, 2500 if tier == "quick" else 40000): groups.setdefault(json.dumps(b["facts"], sort_keys=True), []).append(b)
    out = []
    for g in groups.values():
        for i in range(0, len(g), 40):
            part = g[i:i + 40]
            m = {"kind": "table", "impl": rng.choice(["simple", "sqlite", "memory"]) if "find_" not in str(part) else "simple", "rels": {"p": {"ar": 1, "w": True}, "q": {"ar": 2, "w": True}}, "rows": part[0]["facts"]}
            out.append({"mods": [m], "ops": [{"op": "solve", "goals": b["goals"], "b": fn(b["b"]), "fresh": rng.random() < .3} for b in part]})
    return out


def replay_rules(behaviours, rng, tier):
    """the programs and queries that TLC enumerated (MC_Rules)"""
    groups = {}
    for b in pick(behaviours, rng, 2500 if tier == "quick" else 40000): groups.setdefault(json.dumps([b["facts"], b["rules"]], sort_keys=True), []).append(b)
    out = []
    for part in groups.values():
        m = {"kind": "table", "impl": rng.choice(["simple", "sqlite", "memory"]), "rels": {"p": {"ar": 1, "w": True}, "q": {"ar": 2, "w": True}}, "rows": part[0]["facts"]}
        mods = [m, {"kind": "infer", "impl": rng.choice(["text", "obj"]), "rules": part[0]["rules"]}]
        rng.shuffle(mods)
        out.append({"mods": mods, "ops": [{"op": "solve", "goals": b["goals"], "b": fn(b["b"])} for b in part]})
    return out


def replay_store(behaviours, rng, tier):
    """the histories that TLC enumerated (MC_Store), with questions after every step"""
    out = []
    one = {"ar": 1, "w": True}
    for h in pick(behaviours, rng, 300 if tier == "quick" else 6000):
        i1, i2 = rng.choice(["simple", "sqlite", "memory"]), rng.choice(["simple", "sqlite", "memory"])
        mods = [{"kind": "table", "impl": i1, "rels": {"p": one}, "rows": {"p": []}}, {"kind": "infer", "impl": rng.choice(["text", "obj"]), "rules": []},
                {"kind": "table", "impl": i2, "rels": {"p": one, "g": one}, "rows": {"p": [], "g": []}}]
        ops = []
        for op in h:
            ops.append(dict(op, b=fn(op["b"])) if op["op"] == "solve" else op)
            ops += [{"op": "solve", "goals": [A(p, V("X"))], "b": {}} for p in ("p", "g", "h")]
            ops += [{"op": "solve", "goals": [A("h", V("Y"))], "b": {"Y": enc("a")}}, {"op": "facts", "m": 1, "p": "p"}, {"op": "facts", "m": 3, "p": "g"}]
        out.append({"mods": mods, "ops": ops})
    return out


def replay_context(behaviours, rng, tier):
    """the histories that TLC enumerated (MC_Context)"""
    out = []
    for h in pick(behaviours, rng, 500 if tier == "quick" else 20000):
        mods = [{"kind": "ctx", "rels": {"dialog_isa": {"ar": 2, "w": True}, "context": {"ar": 1, "w": True}}, "rows": {"dialog_isa": [], "context": []}},
                {"kind": "table", "impl": rng.choice(["simple", "sqlite", "memory"]), "rels": {"p": {"ar": 1, "w": True}}, "rows": {"p": []}}]
        ops = []
        for g in h:
            ops += [{"op": "solve", "goals": [x], "b": {}} for x in (g, A("context", "a"), A("context", "b"))]
            ops.append({"op": "facts", "m": 2, "p": "p"})
        out.append({"mods": mods, "ops": ops})
    return out


def both(module, q, t, replay, **kw):
    return [{"module": module, "cfg": q, "replay": replay, "only": "quick"},
            dict({"module": module, "cfg": t, "replay": replay, "only": "thorough", "tier": "thorough", "workers": "8", "timeout": 800}, **kw)]


def P(cases, **kw):
    d = dict(cases=cases, run=run, trace="Trace_Solve", nontrivial=nontrivial, mc=[])
    d.update(kw)
    return d


PROPS = {
    "C09": P(cases_C09, mc=both("MC_Query", "MC_Query_q", "MC_Query_qt", replay_query)), "C10": P(cases_C10), "C11": P(cases_C11, mc=both("MC_Rules", "MC_Rules_q", "MC_Rules_t", replay_rules) + [{"module": "MC_Rules", "cfg": "MC_Rules_t2", "tier": "thorough", "workers": "8", "timeout": 800}]), "C12": P(cases_C12, mc=both("MC_Query", "MC_Query_n", "MC_Query_nt", replay_query)),
    "C13": P(cases_C13, mc=both("MC_Store", "MC_Store_q", "MC_Store_t", replay_store)),
    "C15": P(cases_C15, mc=both("MC_Context", "MC_Context_q", "MC_Context_t2", replay_context)
             + [{"module": "MC_Context", "cfg": "MC_Context_t", "replay": replay_context, "tier": "thorough"}]),
}
