"""C14: data sources; C22: CSV import."""
import os, sqlite3
from common import enc, dec

# ------------------------------------------------------------------ running


def plain(v):
    """the databases know no booleans: 0 and 1"""
    return enc(int(v) if isinstance(v, bool) else v)


def chars(v):
    return {"k": "n"} if v is None else {"k": "c", "c": [ord(x) for x in v]} if isinstance(v, str) else enc(v)


def q(name): return '"' + name.replace('"', '""') + '"'


def make_source(kind, tables):
    """tables: name -> (columns, rows of values)"""
    from richard.data_source.SimpleDataSource import SimpleDataSource
    from richard.data_source.Sqlite3DataSource import Sqlite3DataSource
    from richard.data_source.MySqlDataSource import MySqlDataSource
    from richard.data_source.PsycoPg2DataSource import PsycoPg2DataSource
    from richard.data_source.PsycoPg3DataSource import PsycoPg3DataSource
    from standins import FormatConnection
    if kind == "simple":
        ds = SimpleDataSource()
        for t, (cols, rows) in tables.items():
            for row in rows: ds.insert(t, list(cols), list(row))
        return ds
    con = sqlite3.connect(":memory:")
    for t, (cols, rows) in tables.items():
        con.execute(f"CREATE TABLE {q(t)} ({', '.join(map(q, cols))})")
        for row in rows:
            con.execute(f"INSERT INTO {q(t)} VALUES ({', '.join('?' * len(cols))})", row)
    if kind == "sqlite": return Sqlite3DataSource(con)
    return {"mysql": MySqlDataSource, "psycopg2": PsycoPg2DataSource, "psycopg3": PsycoPg3DataSource}[kind](FormatConnection(con))


def select(ds, ev, cols, vals, coder=plain, column=False):
    try:
        rows = ds.select_column(ev[1], list(cols), list(vals)) if column else ds.select(ev[1], list(cols), list(vals))
        if column: rows = [[x] for x in rows]
        return {"e": False, "r": [[coder(x) for x in row] for row in rows]}
    except Exception as e:
        return {"e": True, "r": [], "why": repr(e)[:200]}


def run_tables(case):
    events = [{"op": "init"}]
    vals = lambda xs: [dec(x) for x in xs]
    for kind in case["sources"]:
        tables = {t["name"]: (t["cols"], [vals(r) for r in t["rows"]]) for t in case["tables"]}
        ds = make_source(kind, tables)
        for t in case["tables"]:
            events.append({"op": "fill", "t": kind + "/" + t["name"], "cols": t["cols"], "rows": [[plain(x) for x in vals(r)] for r in t["rows"]]})
        for op in case["ops"]:
            t = kind + "/" + op["t"]
            if op["op"] == "insert":
                if kind not in ("simple", "sqlite"): continue
                try:
                    ds.insert(op["t"], list(op["cols"]), vals(op["vals"])); out = {"e": False}
                except Exception as e:
                    out = {"e": True, "why": repr(e)[:200]}
                events.append({"op": "insert", "t": t, "cols": op["cols"], "vals": [plain(x) for x in vals(op["vals"])], "out": out})
            else:
                events.append({"op": "select", "src": kind, "t": t, "cols": op["cols"][:1] if op["column"] and all(x["k"] == "n" for x in op["vals"]) else op["cols"],
                               "vals": [plain(x) for x in vals(op["vals"])], "ordered": False,
                               "out": select(ds, ("", op["t"]), op["cols"], vals(op["vals"]), column=op["column"] and all(x["k"] == "n" for x in op["vals"]))})
                if len(events[-1]["cols"]) < len(op["cols"]): events[-1]["vals"] = events[-1]["vals"][:1]
    return events


def node(coltype, v, lang):
    return ("iri", v) if coltype == "id" else ("name", v) if coltype == "constant" else ("lit", v, lang)


def run_sparql(case):
    from richard.data_source.SparqlDataSource import SparqlDataSource
    from richard.data_source.WikidataDataSource import WikidataDataSource
    from standins import Sparql, install_sparql
    url = "https://query.wikidata.org/sparql" if case["lang"] == "en" and case["wikidata"] else "http://localhost/sparql"
    triples = []
    for t in case["tables"]:
        for a, b, *lang in t["rows"]:
            lang = lang or [case["lang"], case["lang"]]
            triples.append((node(t["types"][0], dec(a), lang[0]), ("name", t["name"]), node(t["types"][1], dec(b), lang[1])))
    install_sparql({url: Sparql(triples)}, [])
    ds = WikidataDataSource() if "wikidata" in url else SparqlDataSource(url, lang=case["lang"])
    events = [{"op": "init"}]
    spec_cols = lambda t: ["0" + t["types"][0], "1" + t["types"][1]]
    for t in case["tables"]:
        # literals in other languages are not part of the table
        events.append({"op": "fill", "t": t["name"], "cols": spec_cols(t), "rows": [r[:2] for r in t["rows"] if len(r) == 2]})
    for op in case["ops"]:
        t = [t for t in case["tables"] if t["name"] == op["t"]][0]
        events.append({"op": "select", "src": "sparql", "t": op["t"], "cols": spec_cols(t), "vals": op["vals"], "ordered": False,
                       "out": select(ds, ("", op["t"]), t["types"], [dec(x) for x in op["vals"]])})
    return events


def run_csv(case):
    from richard.data_source.CsvImporter import CsvImporter
    cols = {t["name"]: t["cols"] for t in case["tables"]}
    ds = make_source(case["source"], {t: (c, []) for t, c in cols.items()} if case["source"] == "sqlite" else {})
    events = [{"op": "init"}]
    for op in case["ops"]:
        if op["op"] == "import":
            fn = os.path.join(os.environ["VERIF_SCRATCH"], "import.csv")
            with open(fn, "wb") as f: f.write("".join(map(chr, op["text"])).encode("utf-8"))
            try:
                CsvImporter().import_table_from_file(op["t"], fn, ds); out = {"e": False}
            except Exception as e:
                out = {"e": True, "why": repr(e)[:200]}
            events.append({"op": "import", "t": op["t"], "text": op["text"], "out": out})
        else:
            c = op["cols"]
            events.append({"op": "select", "t": op["t"], "cols": [chars(x) for x in c], "vals": [{"k": "n"}] * len(c), "ordered": True,
                           "out": select(ds, ("", op["t"]), c, [None] * len(c), chars)})
    return events


def run(case):
    return {"tables": run_tables, "sparql": run_sparql, "csv": run_csv}[case["kind"]](case)


def nontrivial(case, events):
    return any(e["op"] == "select" and (e["out"]["r"] or e["out"]["e"]) for e in events)


# ------------------------------------------------------------------ generating

AWK = ["a", "b", "", " ", "None", "it's", '"', "%", "%s", "%%", "a%", "_", "?", ";--", "' OR '1'='1", '" OR "1"="1', "\\", "\\'", "a\nb", "É", "0", "1", "null", "TRUE",
       ":a", "$1", "{}", "`", "c0", "a' OR c0 = 'b", "日本"]
INTS = [0, 1, -1, 7, 42]
RATS = [0.5, -2.25]


def pool_of(rng):
    r = rng.random()
    p = rng.sample(AWK, rng.randint(2, 5))
    if r < .7: p += rng.sample(INTS, 2)
    if r < .3: p += rng.sample(RATS, 1)
    if rng.random() < .08: p = p[-3:] + long_texts(rng)
    return p


def long_texts(rng):
    """texts that only differ far from their start"""
    s = rng.choice(["x", "ab ", "it's "]) * rng.choice([70, 130, 300, 400])
    return [s, s + "y"]


def rand_tables(rng):
    names = rng.sample(["t1", "people", "T_2"], rng.randint(1, 2))
    pool = pool_of(rng)
    big = rng.random() < .03 and max(len(x) for x in pool if isinstance(x, str)) < 50
    nulls = rng.random() < .4
    val = lambda: enc(None) if nulls and rng.random() < .15 else enc(rng.choice(pool))
    tables = []
    for n in names:
        cols = rng.sample(["c0", "c1", "c2", "id", "name"], rng.randint(1, 4))
        tables.append({"name": n, "cols": cols, "rows": [[val() for _ in cols] for _ in range(rng.choice([40, 130] if big else [0, 1, 3, 5, 8]))]})
    ops = []
    for _ in range(rng.randint(3, 8)):
        t = rng.choice(tables)
        cols = rng.sample(t["cols"], rng.randint(1, len(t["cols"])))
        if rng.random() < .2:
            ops.append({"op": "insert", "t": t["name"], "cols": cols, "vals": [val() for _ in cols]})
        else:
            given = lambda: enc(rng.choice(pool + ([False, True] if 0 in pool else []) + rng.sample(AWK + INTS, 1)))
            vals = [enc(None) if rng.random() < .45 else given() for _ in cols]
            if rng.random() < .3 and t["rows"]:
                row = rng.choice(t["rows"])
                vals = [row[t["cols"].index(c)] if v["k"] != "n" else v for c, v in zip(cols, vals)]
            ops.append({"op": "select", "t": t["name"], "cols": cols, "vals": vals, "column": rng.random() < .1})
    return {"kind": "tables", "sources": ["simple", "sqlite", "mysql", "psycopg2", "psycopg3"], "tables": tables, "ops": ops}


IRIS = ["http://www.wikidata.org/entity/Q1", "http://www.wikidata.org/entity/Q2", "http://x/a%20b", "http://x/it's", "urn:é", "http://x/a)b"]
TEXTS = ["John", "it's", 'a "b"', "\\", "a\\", "x\ny", "", "'@en . ?s ?p 'x", "%s", "{}", "É", "\\n", "a\rb", "\t", "'", "''", "}", "\\u0041", "$0", "?term0"]
BADIRIS = ["http://x/a b", "x> ?p ?o . <y", "a\\b", "{}", "", "\n"]


def rand_sparql(rng):
    lang = rng.choice(["en", "en", "nl"])
    tables = []
    texts, iris = rng.sample(TEXTS, 4), rng.sample(IRIS, 3)
    if rng.random() < .06: texts += long_texts(rng)

    def val(t): return enc(rng.choice(iris if t == "id" else texts if t in ("text", "name") else ["wd:Q5", "wd:Q6"]))
    for n in rng.sample(["wdt:P19", "rdfs:label", "wdt:P31"], rng.randint(1, 2)):
        types = [rng.choice(["id", "id", "text"]), rng.choice(["id", "text", "text", "name", "constant"])]
        rows = []
        for _ in range(rng.randint(0, 6)):
            row = [val(types[0]), val(types[1])]
            if row not in rows: rows.append(row)
        if "text" in types:
            for _ in range(rng.randint(0, 2)):
                row = [val(types[0]), val(types[1])]
                o = rng.choice(["de", "fr"])
                # a literal in another language
                rows.append(row + [o if types[0] == "text" else lang, o if types[1] == "text" else lang])
        tables.append({"name": n, "types": types, "rows": rows})
    ops = []
    for _ in range(rng.randint(2, 6)):
        t = rng.choice(tables)
        vals = [enc(None) if rng.random() < .5 else val(ty) for ty in t["types"]]
        if t["rows"] and rng.random() < .4:
            row = rng.choice(t["rows"])
            vals = [x if v["k"] != "n" else v for v, x in zip(vals, row)]
        if rng.random() < .2:
            # a value that no row has
            for i, ty in enumerate(t["types"]):
                if vals[i]["k"] == "s" and ty != "constant": vals[i] = enc(rng.choice(TEXTS if ty != "id" else BADIRIS))
        ops.append({"t": t["name"], "vals": vals})
    return {"kind": "sparql", "lang": lang, "wikidata": rng.random() < .3, "tables": tables, "ops": ops}


def cases_C14(rng, tier):
    n = 500 if tier == "quick" else 6000
    return [rand_tables(rng) if rng.random() < .6 else rand_sparql(rng) for _ in range(n)]


FIELDS = ["", "a", "12", "007", "-3", "+4", "1.50", "a b", " a ", "it's", 'say "x"', '"', '""', ",", "a,b", "x\ny", "x\r\ny", "x\ry", "é", "日本", "a|b", "#c", "None", "0", "\t", "\n",
          "'", "\\", "\\n", ";", "null", "a\"b", "True"]


def write_csv(rng, recs, nl, cluttered):
    out = []
    for r in recs:
        parts = []
        for f in r:
            must = any(c in f for c in '",\r\n') or (f == "" and len(r) == 1)
            parts.append('"' + f.replace('"', '""') + '"' if must or rng.random() < .25 else f)
        out.append(",".join(parts))
        if cluttered and rng.random() < .25: out += [""] * rng.randint(1, 2)
    if cluttered and rng.random() < .3: out = [""] + out
    return nl.join(out) + (nl if rng.random() < .7 else "")


def rand_csv(rng):
    src = rng.choice(["simple", "simple", "sqlite"])
    names = rng.sample(["t1", "people", "rivers"], rng.randint(1, 3))
    tables = []
    for n in names:
        k = rng.randint(1, 4)
        cols = rng.sample(["id", "name", "c0", "Size"] + ([] if src == "sqlite" else ["a b", 'q"x', "x,y", "é", ""]), k)
        tables.append({"name": n, "cols": cols})
    ops = []
    for _ in range(rng.randint(1, 4)):
        t = rng.choice(tables)
        cols = rng.sample(t["cols"], len(t["cols"])) if rng.random() < .5 else t["cols"]
        fields = FIELDS + long_texts(rng) * 4 if rng.random() < .06 else FIELDS
        recs = [[rng.choice(fields) for _ in cols] for _ in range(rng.choice([60, 140] if fields is FIELDS and rng.random() < .02 else [0, 1, 2, 4, 7]))]
        if rng.random() < .3 and recs: recs.append(rng.choice(recs))
        if src == "simple" and rng.random() < .1 and recs and len(cols) > 1:
            i = rng.randrange(len(recs)); recs[i] = recs[i][:-1]
        text = write_csv(rng, [cols] + recs, rng.choice(["\n", "\n", "\r\n", "\r"]), rng.random() < .3)
        if rng.random() < .04: text = rng.choice(["", "\n", "\r\n\n"])
        ops.append({"op": "import", "t": t["name"], "text": [ord(c) for c in text]})
        if rng.random() < .5: ops.append({"op": "select", "t": t["name"], "cols": t["cols"]})
    for t in tables: ops.append({"op": "select", "t": t["name"], "cols": t["cols"]})
    return {"kind": "csv", "source": src, "tables": tables, "ops": ops}


def cases_C22(rng, tier):
    return [rand_csv(rng) for _ in range(500 if tier == "quick" else 5000)]


def replay_csv(behaviours, rng, tier):
    bs = sorted(behaviours, key=str)
    if tier == "quick": bs = rng.sample(bs, min(len(bs), 1200))
    out = []
    for b in bs:
        cols = ["c%d" % i for i in range(b["n"])]
        text = [ord(c) for c in ",".join(cols) + "\n"] + b["text"]
        out.append({"kind": "csv", "source": "simple", "tables": [{"name": "t", "cols": cols}],
                    "ops": [{"op": "import", "t": "t", "text": text}, {"op": "select", "t": "t", "cols": cols}]})
    return out


def replay_tables(behaviours, rng, tier):
    """The histories of MC_Data, in every kind of data source, with all selections after them."""
    import itertools
    none, vals = enc(None), [enc(None), enc("a"), enc(0)]
    selects = [{"op": "select", "t": "t", "cols": list(c), "vals": list(v), "column": False}
               for c in (["c0"], ["c1"], ["c0", "c1"], ["c1", "c0"]) for v in itertools.product(vals, repeat=len(c))]
    bs = sorted(behaviours, key=str)
    bs = rng.sample(bs, min(len(bs), 60 if tier == "quick" else 1500))
    out = []
    for b in bs:
        rows = [[dict(zip(o["cols"], o["vals"])).get(c, none) for c in ("c0", "c1")] for o in b]
        k = rng.randint(0, len(b))   # so many records are there from the start
        out.append({"kind": "tables", "sources": ["simple", "sqlite", "mysql", "psycopg2", "psycopg3"],
                    "tables": [{"name": "t", "cols": ["c0", "c1"], "rows": rows[:k]}],
                    "ops": b[k:] + rng.sample(selects, 12 if tier == "quick" else 24)})
    return out


def P(cases, **kw):
    d = dict(cases=cases, run=run, trace="Trace_Data", nontrivial=nontrivial, mc=[])
    d.update(kw)
    return d


PROPS = {"C14": P(cases_C14, mc=[{"module": "MC_Data", "cfg": "MC_Data_q", "replay": replay_tables, "only": "quick"},
                                 {"module": "MC_Data", "cfg": "MC_Data_t", "replay": replay_tables, "only": "thorough", "tier": "thorough", "workers": "8", "timeout": 800}]),
         "C22": P(cases_C22, mc=[{"module": "MC_Csv", "cfg": "MC_Csv", "replay": replay_csv},
                                 {"module": "MC_Csv", "cfg": "MC_Csv2", "replay": replay_csv}])}
