"""C16, C17: the query optimiser."""
from common import enc, dec, V, L, T, A
from props.model import build_model, spec_mods, enc_answers
from props.solve import consts


def sizes_of(mods):
    out = {}
    for m in mods:
        for p in m["rels"]:
            out.setdefault(p, []).append(m["sizes"].get(p, {"size": -1, "args": []}))
    return out


def run(case):
    from richard.core.Solver import Solver
    from richard.processor.semantic_composer.optimizer.BasicQueryOptimizer import BasicQueryOptimizer
    model, _ = build_model(case["mods"])
    events = [{"op": "init", "mods": spec_mods(case["mods"]), "sizes": sizes_of(case["mods"])}]
    opt = BasicQueryOptimizer(model)
    for q in case["queries"]:
        goals = [dec(g) for g in q["goals"]]
        out = {"e": False, "pe": False, "plan": [], "r": [], "plain": []}
        plan = None
        try:
            its = opt.optimize(goals, list(q["roots"]))
            plan = list(its.values())[-1]
            out["plan"] = [enc(g) for g in plan]
        except Exception as e:
            out.update(e=True, pe=True, why=repr(e)[:200])
        if "answers" in case["judge"] and plan is not None:
            try:
                out["r"] = enc_answers(Solver(model).solve(plan))
                out["plain"] = enc_answers(Solver(model).solve([dec(g) for g in q["goals"]]))
            except Exception as e:
                out.update(e=True, why=repr(e)[:200])
        events.append({"op": "optimised", "judge": case["judge"], "goals": q["goals"], "roots": q["roots"], "out": out})
    return events


def nontrivial(case, events):
    return any(e["op"] == "optimised" and (e["out"]["pe"] or e["out"]["plan"]) for e in events)


# ------------------------------------------------------------------ generating

def rand_sizes(rng, preds, p_undeclared=.15, p_bad=0.0):
    out = {}
    for p, ar in preds:
        if rng.random() < p_undeclared: continue
        sz = [1, 2, 3, 5, 10, 100, 1000]
        args = [rng.choice([1, 2, 3, 5, 10, 10, 30, -1]) for _ in range(ar)]
        if rng.random() < p_bad: args = args[:-1] if rng.random() < .5 else args + [2]
        out[p] = {"size": -1 if rng.random() < .06 else rng.choice(sz), "args": args}
    return out


def table(rng, preds, pool, nrows, p_undeclared=.15, p_bad=0.0):
    return {"kind": "table", "impl": "simple", "rels": {p: {"ar": ar, "w": True} for p, ar in preds},
            "rows": {p: [[rng.choice(pool) for _ in range(ar)] for _ in range(rng.randint(0, nrows))] for p, ar in preds},
            "sizes": rand_sizes(rng, preds, p_undeclared, p_bad)}


VARS = [f"${i}" for i in range(1, 60)]


def rand_answers_case(rng):
    """queries whose goals may be evaluated in any order: goals with nested goals come last at each level, and share
    with the other goals only variables that are bound by then"""
    pool = consts(rng, rng.choice([1, 2, 2, 3]), rng.choice(["str", "int", "any"]))
    preds = [(f"p{i}", rng.choice([1, 1, 2, 2, 3, 3, 4, 5])) for i in range(rng.randint(2, 5))]
    mods = [table(rng, preds, pool, 5)]
    if rng.random() < .25: mods.append(table(rng, [rng.choice(preds)], pool, 3))
    names = ["ann", "bob"]
    hasname = rng.random() < .6
    if hasname:
        m = table(rng, [("resolve_name", 2)], pool, 0)
        m["rows"]["resolve_name"] = [[enc(n), rng.choice(pool)] for n in names]
        mods.insert(rng.randint(0, len(mods)), m)
    queries = []
    for _ in range(rng.randint(2, 4)):
        fresh = iter(VARS)
        counters = []

        def block(depth, outer, k=None):
            """a list of goals; outer: variables bound before it. Returns goals and the variables it binds"""
            mine = [next(fresh, "$60") for _ in range(rng.randint(1, 3))]
            flat, bound = [], set()
            for _ in range(k or rng.choice([1, 1, 2, 2, 3] if depth else [1, 2, 2, 3, 3, 4])):
                r = rng.random()
                if hasname and r < .25:
                    nv = next(fresh, "$60")
                    flat.append(A("resolve_name", rng.choice(names), V(nv))); mine.append(nv); bound.add(nv)
                    continue
                p, ar = rng.choice(preds)
                args = []
                for _ in range(ar):
                    if rng.random() < .15: args.append(rng.choice(pool))
                    else:
                        v = rng.choice(mine + (outer if rng.random() < .5 else []))
                        args.append(V(v)); bound.add(v)
                flat.append(A(p, *args))
            rng.shuffle(flat)
            control = []
            if depth < 2:
                known = sorted(set(outer) | bound)
                for _ in range(rng.choice([0, 0, 1, 1, 2]) if depth == 0 else rng.choice([0, 0, 0, 1])):
                    r = rng.choice(["not", "none", "scoped", "det_equals", "det_greater_than", "det_less_than", "count", "all",
                                    "find_all", "$disjunction", "sum"])
                    see = [v for v in known if rng.random() < .7]
                    if r in ("not", "none", "scoped"):
                        control.append(A(r, L(*block(depth + 1, see)[0])))
                    elif r.startswith("det_"):
                        control.append(A(r, L(*block(depth + 1, see)[0]), enc(rng.randint(0, 2))))
                    elif r == "count":
                        n = next(fresh, "$60")
                        control.append(A(r, V(n), L(*block(depth + 1, see)[0]))); counters.append(n)
                        if rng.random() < .4: control.append(A(rng.choice(["greater_than", "less_than"]), V(n), enc(rng.randint(0, 2))))
                    elif r == "all":
                        q = next(fresh, "$60")
                        one = [p for p, ar in preds if ar == 1]
                        rest = block(depth + 1, see + [q])[0]
                        if one: control.append(A(r, V(q), L(A(rng.choice(one), V(q))), L(*rest)))
                    elif r == "find_all":
                        b, vs = block(depth + 1, see)
                        n = next(fresh, "$60"); counters.append(n)
                        control.append(A(r, enc(rng.choice(sorted(vs) or ["$1"])), L(*b), V(n)))
                    elif r == "$disjunction":
                        control.append(A(r, L(*[L(*[g for g in block(depth + 1, see)[0]]) for _ in range(2)])))
            return flat + control, bound
        goals, bound = block(0, [])
        roots = [v for v in sorted(bound) + counters if rng.random() < .35]
        if rng.random() < .2: roots = sorted(bound)
        queries.append({"goals": goals, "roots": roots})
    return {"mods": mods, "queries": queries, "judge": ["answers"]}


def rand_plan_case(rng):
    """any query at all"""
    pool = consts(rng, 3, "any")
    preds = [(f"p{i}", rng.choice([1, 1, 2, 2, 3, 3, 4, 5])) for i in range(rng.randint(2, 5))] + [("resolve_name", 2)]
    bad = rng.random() < .05
    mods = [table(rng, preds, pool, 0, .2, .5 if bad else 0)]
    for _ in range(rng.choice([0, 0, 1, 2])):
        mods.append(table(rng, rng.sample(preds, 1), pool, 0, .2))
    nv = rng.choice([2, 4, 6, 9])
    queries = []
    for _ in range(rng.randint(2, 5)):
        vs = VARS[:nv]

        def args(ar, depth):
            out = []
            for _ in range(ar):
                r = rng.random()
                if r < .15: out.append(rng.choice(pool))
                elif r < .2: out.append(T("x", V(rng.choice(vs)), 1))
                elif r < .23: out.append(L(V(rng.choice(vs)), enc("a")))
                elif r < .27 and depth: out.append(L(*goals(depth - 1)))
                else: out.append(V(rng.choice(vs)))
            return out

        def goal(depth):
            r = rng.random()
            if r < .14: return A("resolve_name", rng.choice([enc("ann"), enc("bob"), V(rng.choice(vs))]), V(rng.choice(vs)))
            if r < .3 and depth:
                c = rng.choice(["not", "scoped", "count", "all", "find_all", "det_equals", "$disjunction", "none", "sum"])
                b = lambda: L(*goals(depth - 1))
                v = V(rng.choice(vs))
                return {"not": lambda: A(c, b()), "none": lambda: A(c, b()), "scoped": lambda: A(c, b()), "count": lambda: A(c, v, b()),
                        "all": lambda: A(c, v, b(), b()), "det_equals": lambda: A(c, b(), 2), "sum": lambda: A(c, V(rng.choice(vs)), v, b()),
                        "find_all": lambda: A(c, rng.choice([enc("$1"), L(enc("$1"), enc("$2"))]), b(), v),
                        "$disjunction": lambda: A(c, L(b(), b()))}[c]()
            p, ar = rng.choice(preds[:-1])
            return A(p, *args(ar, depth))

        def goals(depth):
            out = [goal(depth) for _ in range(rng.choice([0, 1, 1, 2, 3] if depth < 2 else [0, 1, 2, 3, 4, 5, 6, 8]))]
            if out and rng.random() < .12: out.insert(rng.randint(0, len(out)), rng.choice(out))
            return out
        queries.append({"goals": goals(2), "roots": [v for v in vs if rng.random() < rng.choice([.1, .3, .6])]})
    return {"mods": mods, "queries": queries, "judge": ["plan"]}


def rand_web_case(rng):
    """flat queries whose goals are connected in all sorts of ways, often through other goals"""
    pool = [enc(x) for x in rng.sample(["1", "2", "3", "4"], rng.choice([2, 3]))]
    preds = [(f"p{i}", ar) for i, ar in enumerate([1, 1, 2, 2, 2])]
    mods = [table(rng, preds, pool, 3, rng.choice([.15, 1.0, 1.0]))]
    queries = []
    for _ in range(4):
        if rng.random() < .6:
            # a tree of variables, its goals in any order
            n = rng.randint(5, 9)
            names = rng.sample(VARS, n)
            goals = [A(rng.choice(["p2", "p3", "p4"]), *rng.sample([V(names[i]), V(names[rng.randrange(i)])], 2)) for i in range(1, n)]
            goals += [A(rng.choice(["p0", "p1"]), V(v)) for v in names if rng.random() < .3]
            rng.shuffle(goals)
            goals.insert(0, A(rng.choice(["p0", "p1"]), V("$60")))
            queries.append({"goals": goals, "roots": rng.choice([["$60"], ["$60"], [names[0]], []])})
            continue
        vs = VARS[:rng.randint(4, 7)]
        goals = []
        for _ in range(rng.randint(4, 7)):
            p, ar = rng.choice(preds)
            goals.append(A(p, *[V(v) for v in rng.sample(vs, ar)]))
        queries.append({"goals": goals, "roots": rng.sample(vs, rng.choice([0, 1, 1, 2]))})
    return {"mods": mods, "queries": queries, "judge": ["answers"]}


def rand_chain_case(rng):
    """a tree of variables that must all be equal, while two of them must be different: there are no answers, but as soon as
    a goal is considered without those it is connected to (through others), there are"""
    mods = [table(rng, [("h", 1), ("p0", 1), ("p1", 1), ("same", 2), ("wide", 5)], [enc("x")], 0, rng.choice([.15, 1.0, 1.0]))]
    mods[0]["rows"] = {"h": [[enc("x")]], "p0": [[enc("0")]], "p1": [[enc("1")]], "same": [[enc("0"), enc("0")], [enc("1"), enc("1")]],
                       "wide": [[enc("x"), enc("0"), enc("x"), enc("0"), enc("0")], [enc("x"), enc("1"), enc("x"), enc("1"), enc("1")]]}
    queries = []
    link = lambda a, b: A("same", a, b) if rng.random() < .7 else A("wide", "x", rng.choice([a, b]), "x", a, b) if rng.random() < .3 else A("wide", "x", a, "x", a, b)
    for _ in range(12):
        n = rng.randint(3, 9)
        names = rng.sample(VARS, n)
        goals = [link(*rng.sample([V(names[i]), V(names[rng.randrange(max(0, i - rng.choice([1, 3, 9])), i)])], 2)) for i in range(1, n)]
        a, b = rng.sample(names, 2)
        goals += [A("p0", V(a)), A(rng.choice(["p1", "p1", "p1", "p0"]), V(b))]
        rng.shuffle(goals)
        goals.insert(0, A("h", V("$60")))
        queries.append({"goals": goals, "roots": rng.choice([["$60"], ["$60"], ["$60", names[0]], []])})
    return {"mods": mods, "queries": queries, "judge": ["answers"]}


def cases_C16(rng, tier):
    return [rand_chain_case(rng) for _ in range(100 if tier == "quick" else 2000)] + [rand_web_case(rng) for _ in range(300 if tier == "quick" else 4000)] + [rand_answers_case(rng) for _ in range(1200 if tier == "quick" else 12000)]


def cases_C17(rng, tier):
    return [rand_plan_case(rng) for _ in range(800 if tier == "quick" else 8000)]


STORED = {"p": [["a"], ["b"]], "q": [["a", "b"], ["a", "a"], ["b", "b"]], "resolve_name": [["N", "a"]]}


def replay(judge):
    """the queries that TLC enumerated (MC_Optimize), against the same facts"""
    def f(behaviours, rng, tier):
        bs = sorted(behaviours, key=str)
        if tier == "quick": bs = rng.sample(bs, min(len(bs), 1500))
        groups = {}
        for b in bs: groups.setdefault(str(b["sizes"]), []).append(b)
        out = []
        for g in groups.values():
            for i in range(0, len(g), 40):
                part = g[i:i + 40]
                m = {"kind": "table", "impl": "simple", "rels": {p: {"ar": len(r[0]), "w": True} for p, r in STORED.items()},
                     "rows": {p: [[enc(x) for x in row] for row in r] for p, r in STORED.items()},
                     "sizes": {p: rel[0] for p, rel in part[0]["sizes"].items()}}
                out.append({"mods": [m], "queries": [{"goals": b["goals"], "roots": b["roots"]} for b in part], "judge": judge})
        return out
    return [{"module": "MC_Optimize", "cfg": "MC_Optimize_q", "replay": f, "only": "quick"},
            {"module": "MC_Optimize", "cfg": "MC_Optimize_t", "replay": f, "only": "thorough", "tier": "thorough", "workers": "8"}]


def P(cases, **kw):
    d = dict(cases=cases, run=run, trace="Trace_Optimize", nontrivial=nontrivial, mc=[])
    d.update(kw)
    return d


PROPS = {"C16": P(cases_C16, mc=replay(["answers"])), "C17": P(cases_C17, mc=replay(["plan"]))}
