"""Builds real richard models from abstract module descriptions (see spec/Solve.tla)."""
import os, re, sqlite3
from common import enc, dec


def simple_ds(m):
    from richard.data_source.SimpleDataSource import SimpleDataSource
    return SimpleDataSource()


def cols(ar):
    return [f"c{i}" for i in range(ar)]


def build_table(m):
    from richard.interface.SomeModule import SomeModule
    from richard.entity.Relation import Relation
    from richard.data_source.SimpleDataSource import SimpleDataSource
    from richard.data_source.Sqlite3DataSource import Sqlite3DataSource
    from richard.module.SimpleMemoryModule import SimpleMemoryModule

    impl = m.get("impl", "simple")
    sizes = m.get("sizes", {})

    def rel(p, r, q=None, w=None):
        kw = {}
        if p in sizes:
            ign = lambda x: "ignored" if x == -1 else x
            kw = dict(relation_size=ign(sizes[p]["size"]), argument_sizes=[ign(x) for x in sizes[p]["args"]])
        return Relation(p, arguments=cols(r["ar"]), query_function=q, write_function=w, **kw)

    if impl in ("memory", "buffer"):
        if impl == "memory":
            mod = SimpleMemoryModule()

            def create():
                for p, r in m["rels"].items():
                    mod.data_source.connection.cursor().execute(f"CREATE TABLE {p} ({', '.join(cols(r['ar']))})")
            create()
            orig = mod.clear
            def clear():
                orig(); create()
            mod.clear = clear
        else:
            from richard.module.BasicOutputBuffer import BasicOutputBuffer
            mod = BasicOutputBuffer()
        for p, r in m["rels"].items():
            mod.add_relation(rel(p, r))
        for p, rows in m["rows"].items():
            for row in rows:
                mod.data_source.insert(p, cols(m["rels"][p]["ar"]), [dec(x) for x in row])
        return mod

    class TableModule(SomeModule):
        def __init__(self):
            super().__init__()
            self.fill()
            for p, r in m["rels"].items():
                self.add_relation(rel(p, r, self.query, self.write if r["w"] else None))

        def fill(self):
            if impl == "sqlite":
                con = sqlite3.connect(":memory:")
                for p, r in m["rels"].items():
                    con.cursor().execute(f"CREATE TABLE {p} ({', '.join(cols(r['ar']))})")
                self.data_source = Sqlite3DataSource(con)
            else:
                self.data_source = SimpleDataSource()
            for p, rows in m["rows"].items():
                for row in rows:
                    self.data_source.insert(p, cols(m["rels"][p]["ar"]), [dec(x) for x in row])

        def query(self, values, context):
            return self.data_source.select(context.relation.predicate, context.relation.arguments, values)

        def write(self, values, context):
            self.data_source.insert(context.relation.predicate, context.relation.arguments, values)

        def clear(self):
            rows = m["rows"]; m["rows"] = {}
            self.fill(); m["rows"] = rows

    return TableModule()


def build_fixed(m):
    from richard.interface.SomeModule import SomeModule
    from richard.entity.Relation import Relation
    mod = type("FixedModule", (SomeModule,), {})()
    for p, r in m["rels"].items():
        rows = [[dec(x) for x in row] for row in m["rows"][p]]
        if r["ar"] == -1:
            rows = "nonsense"
        elif r["ar"] == -2:
            rows = [("a",)] if not rows else [tuple(x) for x in rows]
        mod.add_relation(Relation(p, arguments=None, query_function=(lambda rows: lambda values, context: rows)(rows)))
    return mod


def rule_text(rules):
    """Renders rules in the notation; None if a constant cannot be written in it."""
    def term(t):
        k = t["k"]
        if k == "v":
            if not re.fullmatch("[A-Z]\\w*", t["n"]): raise ValueError
            return t["n"]
        if k == "i": return str(t["i"])
        if k == "q":
            s = repr(t["n"] / t["d"])
            if "e" in s: raise ValueError
            return s
        if k == "s":
            if "\\" in t["s"] or "\n" in t["s"]: raise ValueError
            return "'" + t["s"].replace("'", "\\'") + "'"
        if k == "l":
            if not t["l"]: raise ValueError
            return "(" + body(t["l"]) + ")"
        raise ValueError

    def atom(t):
        p = t["t"][0]["s"]
        if p == "$disjunction":
            return "(" + "; ".join(body(d["l"]) for d in t["t"][1]["l"]) + ")"
        return p + "(" + ", ".join(term(x) for x in t["t"][1:]) + ")"

    def body(ts):
        return ", ".join(atom(t) for t in ts)
    try:
        return "\n".join(atom(r["head"]) + (" :- " + body(r["body"]) if r["body"] else "") + "." for r in rules) + "\n"
    except ValueError:
        return None


def build_infer(m):
    from richard.module.InferenceModule import InferenceModule
    from richard.type.InferenceRule import InferenceRule
    mod = InferenceModule()
    text = rule_text(m["rules"]) if m.get("impl") == "text" else None
    if text is not None:
        fn = os.path.join(os.environ["VERIF_SCRATCH"], "rules.pl")
        with open(fn, "w") as f:
            f.write(text)
        mod.import_rules(fn)
    else:
        for r in m["rules"]:
            mod.insert_rule(InferenceRule(dec(r["head"]), [dec(x) for x in r["body"]]))
    return mod


def build_ctx(m):
    from richard.module.BasicDialogContext import BasicDialogContext
    mod = BasicDialogContext()
    for p, rows in m["rows"].items():
        for row in rows:
            mod.data_source.insert(p, mod.get_relations()[p].arguments, [dec(x) for x in row])
    return mod


def build_iter(m):
    """relations that say how many results there are, and do not have them"""
    from richard.interface.SomeModule import SomeModule
    from richard.entity.Relation import Relation
    from richard.entity.ResultIterator import ResultIterator

    class Only(ResultIterator):
        def __next__(self):
            if self.number > 0: raise Exception("the results are counted only")
            raise StopIteration
    mod = type("IterModule", (SomeModule,), {})()
    for p, r in m["rels"].items():
        mod.add_relation(Relation(p, query_function=(lambda r: lambda values, context: Only([None] * r["ar"], r["n"]))(r)))
    return mod


def build_grammar(m):
    from richard.module.GrammarModule import GrammarModule
    return GrammarModule(m["object"])


BUILD = {"grammar": build_grammar, "iter": build_iter, "table": build_table, "fixed": build_fixed, "infer": build_infer, "ctx": build_ctx}


def build_model(mods):
    from richard.core.Model import Model
    modules = [BUILD[m["kind"]](m) for m in mods]
    return Model(modules), modules


def spec_mods(mods):
    """The part of the description that the specification sees."""
    return [{k: v for k, v in m.items() if k in ("kind", "rels", "rows", "rules", "g", "learned")} for m in mods]


def enc_binding(b):
    return {k: enc(v) for k, v in b.items()}


def enc_answers(r):
    from richard.entity.ResultIterator import ResultIterator
    if isinstance(r, ResultIterator):
        return [{"$many": enc(len(r))}] if len(r) else []
    return [enc_binding(b) for b in r]
