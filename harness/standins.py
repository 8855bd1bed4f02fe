"""Stand-ins for servers that cannot run here: DB-API connections backed by sqlite, and a small SPARQL endpoint.
They accept exactly what the real ones would; what the statement means is up to sqlite / the evaluator below."""
import re, sqlite3


class FormatCursor:
    """paramstyle 'format': %s places, %% for a percent sign, as psycopg and mysql.connector do when there are arguments"""
    def __init__(self, con): self.c = con.cursor()

    def execute(self, q, args=None):
        if args:
            n = 0
            out, i = "", 0
            while i < len(q):
                if q[i] == "%":
                    if q[i:i + 2] == "%s": out += "?"; n += 1
                    elif q[i:i + 2] == "%%": out += "%"
                    else: raise Exception("unsupported format character in statement: " + q[i:i + 2])
                    i += 2
                else:
                    out += q[i]; i += 1
            if n != len(args): raise Exception("wrong number of arguments for statement")
            self.c.execute(out, tuple(args))
        else:
            self.c.execute(q)
        return self

    def fetchall(self): return self.c.fetchall()
    def fetchone(self): return self.c.fetchone()
    def fetchmany(self, *a): return self.c.fetchmany(*a)
    def __iter__(self): return iter(self.c)
    def close(self): self.c.close()
    def __enter__(self): return self
    def __exit__(self, *a): self.close()
    @property
    def description(self): return self.c.description
    @property
    def rowcount(self): return self.c.rowcount


class FormatConnection:
    def __init__(self, con): self.con = con
    def cursor(self, *a, **kw): return FormatCursor(self.con)
    def execute(self, q, args=None): return self.cursor().execute(q, args)
    def commit(self): pass
    def close(self): pass


TOKEN = re.compile(r"""\s*(?:
    (?P<iri><[^<>"{}|^`\\\x00-\x20]*>) | (?P<var>[?$]\w+) |
    (?P<str>'''(?:[^'\\]|\\[tbnrf\\"']|''?(?!'))*'''|\"\"\"(?:[^"\\]|\\[tbnrf\\"']|""?(?!"))*\"\"\"|
       '(?:[^'\\\n\r]|\\[tbnrf\\"'])*' | "(?:[^"\\\n\r]|\\[tbnrf\\"'])*") |
    (?P<lang>@[a-zA-Z]+(?:-[a-zA-Z0-9]+)*) | (?P<num>[+-]?\d+(?:\.\d+)?) |
    (?P<name>[A-Za-z_][\w-]*:[\w.-]*\w|:[\w-]+|[A-Za-z_]\w*:|[A-Za-z_]\w*) | (?P<p>[{}().*=,;])
    )""", re.X)
ESC = {"t": "\t", "b": "\b", "n": "\n", "r": "\r", "f": "\f", "\\": "\\", '"': '"', "'": "'"}


class Bad(Exception):
    pass


def tokens(q):
    # code point escapes; as in Java, a backslash that is itself escaped starts none
    q = re.sub(r"(?<!\\)((?:\\\\)*)\\u([0-9A-Fa-f]{4})", lambda m: m[1] + chr(int(m[2], 16)), q)
    out, i = [], 0
    while q[i:].strip():
        m = TOKEN.match(q, i)
        if not m: raise Bad("at " + q[i:i + 20])
        k = m.lastgroup
        out.append((k, m[k])); i = m.end()
    return out


def unstr(s):
    s = s[3:-3] if s[:3] in ("'''", '"""') else s[1:-1]
    return re.sub(r"\\(.)", lambda m: ESC[m[1]], s)


class Sparql:
    """triples: (subject, predicate, object); a term is ('iri', v), ('lit', v, lang), ('name', v), ('num', v)"""
    def __init__(self, triples): self.triples = triples

    def query(self, q):
        ts = tokens(q) + [("end", "")]
        pos = [0]

        def peek(): return ts[pos[0]]

        def take(kind=None, text=None):
            t = ts[pos[0]]
            if (kind and t[0] != kind) or (text and t[1].upper() != text): raise Bad(f"expected {text or kind}, got {t}")
            pos[0] += 1
            return t

        def term():
            k, v = peek()
            if k == "iri": take(); return ("iri", v[1:-1])
            if k == "var": take(); return ("var", v[1:])
            if k == "str":
                take()
                return ("lit", unstr(v), take("lang")[1][1:] if peek()[0] == "lang" else "")
            if k == "num": take(); return ("num", v)
            if k == "name" and ":" in v: take(); return ("name", v)
            raise Bad(f"term {v}")
        take("name", "SELECT")
        if peek()[1].upper() == "DISTINCT": take()
        vs = []
        while peek()[0] == "var": vs.append(take()[1][1:])
        if not vs: take("p", "*")
        if peek()[1].upper() == "WHERE": take()
        take("p", "{")
        patterns, filters = [], []
        while peek()[1] != "}":
            if peek()[1].upper() == "FILTER":
                take(); take("p", "("); take("name", "LANG"); take("p", "("); v = take("var")[1][1:]; take("p", ")"); take("p", "=")
                filters.append((v, unstr(take("str")[1]))); take("p", ")")
            else:
                patterns.append((term(), term(), term()))
            if peek()[1] == ".": take()
            elif peek()[1] not in ("}",) and peek()[1].upper() != "FILTER": raise Bad("expected .")
        take("p", "}"); take("end")
        sols = [{}]
        for pat in patterns:
            new = []
            for s in sols:
                for t in self.triples:
                    b = dict(s)
                    for p, x in zip(pat, t):
                        if p[0] == "var":
                            if b.setdefault(p[1], x) != x: break
                        elif p != x: break
                    else: new.append(b)
            sols = new
        for v, lang in filters:
            sols = [s for s in sols if v in s and s[v][0] == "lit" and s[v][2] == lang]
        names = vs or sorted({v for s in sols for v in s})
        return {"head": {"vars": names},
                "results": {"bindings": [{v: {"type": "uri" if s[v][0] == "iri" else "literal", "value": s[v][1]} for v in names if v in s}
                                         for s in sols]}}


class Response:
    def __init__(self, code, data):
        import json
        self.status_code, self.data, self.text, self.ok = code, data, str(data), code < 400
        self.content = json.dumps(data).encode()
        self.headers = {}

    def json(self):
        import copy
        return copy.deepcopy(self.data)

    def raise_for_status(self):
        if self.status_code >= 400: raise Exception(self.text)


def install_sparql(graphs, log):
    """graphs: url -> Sparql. Every request goes to them; log gets one entry per request."""
    import requests

    def request(self, method, url, params=None, data=None, headers=None, **kw):
        q = (params or data or {}).get("query", "")
        log.append({"url": url, "query": q})
        if url not in graphs: return Response(404, "not found")
        try:
            return Response(200, graphs[url].query(q))
        except Bad as e:
            return Response(400, f"bad query: {e}")
    requests.sessions.Session.request = request
