"""A small in-memory stand-in for sqlite3 in symbolic runs (replays use the real one)."""
import os, re, sqlite3
DBS = {}
class Error(sqlite3.OperationalError): pass
class Row:
    def __init__(self, cols, vals): self.cols = cols; self.vals = vals
    def keys(self): return list(self.cols)
    def __getitem__(self, k):
        if isinstance(k, int): return self.vals[k]
        for c, v in zip(self.cols, self.vals):
            if c.lower() == k.lower(): return v
        raise IndexError('No item with that key')
    def __len__(self): return len(self.vals)
    def __iter__(self): return iter(self.vals)
class Table:
    def __init__(self, cols, numeric, unique=None): self.cols = cols; self.numeric = numeric; self.unique = [unique] if unique else []; self.rows = []
def affinity(v, numeric):
    if v is True or v is False: return int(v)
    if numeric and type(v) is str and re.fullmatch(r'-?\d+', v): return int(v)
    if not numeric and type(v) is int: return str(v)
    return v
class Cursor:
    def __init__(self, conn): self.conn = conn; self.found = []
    def close(self): pass
    def execute(self, sql, args=()):
        T = self.conn.db; args = tuple(args)
        assert type(sql) is str
        m = re.match(r'\s*CREATE TABLE "?(\w+)"?\s*\((.*)\)\s*$', sql, re.I | re.S)
        if m:
            body = m.group(2); pk = re.search(r',\s*Primary Key\s*\(([^)]*)\)', body, re.I)
            if pk: body = body[:pk.start()]
            defs = [d.split(None, 1) for d in re.sub(r'\([^)]*\)', '', body).split(',')]
            if m.group(1).lower() in T: raise Error('table exists')
            T[m.group(1).lower()] = Table([d[0] for d in defs], [bool(re.match('INT|NUMERIC|BOOL|DATE', d[1], re.I)) for d in defs], [c.strip() for c in pk.group(1).split(',')] if pk else None)
            return self
        m = re.match(r'\s*CREATE (UNIQUE )?INDEX \w+ on "?(\w+)"?\s*\(([^)]*)\)\s*$', sql, re.I)
        if m:
            t = T[m.group(2).lower()]
            if m.group(1):
                t.unique.append([c.strip() for c in m.group(3).split(',')])
                for i, r in enumerate(t.rows): self.check(t, r, t.rows[:i])
            return self
        m = re.match(r'\s*INSERT INTO "?(\w+)"? VALUES\s*\(([?, ]*)\)\s*$', sql, re.I)
        if m:
            t = T[m.group(1).lower()]
            if m.group(2).count('?') != len(args) or len(args) != len(t.cols): raise Error('wrong number of values')
            r = tuple(affinity(v, n) for v, n in zip(args, t.numeric))
            self.check(t, r, t.rows); t.rows.append(r)
            return self
        m = re.match(r'\s*select (.*?) from "?(\w+)"?(?:\s+where (.*?))?(?:\s+order by [\w, ]+)?\s*;?\s*$', sql, re.I | re.S)
        if m:
            if m.group(2).lower() not in T: raise Error('no such table ' + m.group(2))
            t = T[m.group(2).lower()]; rows = t.rows
            low = [c.lower() for c in t.cols]; n = 0
            for cond in re.split(r'\s+and\s+', m.group(3), flags=re.I) if m.group(3) else ():
                c, op, v = re.match(r'"?(\w+)"?\s*(=|==)\s*(\S+)', cond).groups()
                i = low.index(c.lower())
                if v == '?': w = args[n]; n += 1
                else: w = v.strip('"\'')
                w = affinity(w, t.numeric[i])
                rows = [r for r in rows if r[i] == w]
            if n != len(args): raise Error('wrong number of values')
            cols = t.cols if m.group(1).strip() == '*' else [c.strip(' "') for c in m.group(1).split(',')]
            ix = [low.index(c.lower()) for c in cols]
            self.found = [tuple(r[i] for i in ix) for r in rows]
            if self.conn.row_factory is not None: self.found = [Row(cols, r) for r in self.found]
            return self
        raise NotImplementedError('sql: ' + sql)
    def check(self, t, r, rows):
        for u in t.unique:
            ix = [t.cols.index(c) for c in u]
            for o in rows:
                if all(o[i] == r[i] for i in ix): raise Error('UNIQUE constraint failed')
    def fetchone(self): return self.found.pop(0) if self.found else None
    def fetchall(self): r, self.found = self.found, []; return r
    def __iter__(self): return iter(self.fetchall())
class Connection:
    row_factory = None
    def __init__(self, path): self.db = DBS.setdefault(os.path.normpath(str(path)), {})
    def cursor(self): return Cursor(self)
    def execute(self, *a): return self.cursor().execute(*a)
    def commit(self): pass
    def close(self): pass
def connect(path, *a, **k):
    p = os.path.normpath(str(path))
    if not os.path.exists(p): DBS.pop(p, None); open(p, 'w').close()
    return Connection(p)
