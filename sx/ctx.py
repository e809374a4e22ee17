"""
sx.ctx -- what a harness sees.  Symbolic context (inputs are solver variables, checks are solver queries) and
concrete context (inputs come from a recorded model, checks are plain asserts on the real, uninstrumented code).
"""
import json


class CheckFailed(Exception):
    def __init__(self, label, detail=''):
        Exception.__init__(self, label); self.label = label; self.detail = detail

class AssumptionFailed(BaseException): pass


class Outcome:
    """Result of sx.attempt: .ok, .value or .exc"""
    __slots__ = ('ok', 'value', 'exc')
    def __init__(self, ok, value, exc): self.ok = ok; self.value = value; self.exc = exc
    @property
    def kind(self): return 'ok' if self.ok else type(self.exc).__name__


_domCache = {}
def domOf(spec):
    """None (any code point but surrogates), a string of characters, or a list of (lo,hi) code point ranges."""
    if spec is None: return None
    key = spec if isinstance(spec, str) else tuple(spec)
    r = _domCache.get(key)
    if r is None:
        if isinstance(spec, str): r = frozenset(ord(c) for c in spec)
        else:
            s = set()
            for a, b in spec:
                for c in range(ord(a) if isinstance(a, str) else a, (ord(b) if isinstance(b, str) else b) + 1): s.add(c)
            r = frozenset(s)
        _domCache[key] = r
    return r


class SymCtx:
    symbolic = True
    def __init__(self):
        self.reached = {}
    def _rec(self, name, kind, v):
        from .core import E
        if name in E.inputs: raise RuntimeError('duplicate input ' + name)
        E.inputs[name] = (kind, v)
    def int(self, name, lo, hi):
        import z3
        from .core import E, SymInt
        t = z3.Int('i!' + name)
        E.base(('i', name, lo, hi), z3.And(t >= lo, t <= hi))
        self._rec(name, 'int', t)
        return SymInt(t)
    def bool(self, name):
        import z3
        from .core import E, SymBool
        t = z3.Bool('b!' + name)
        self._rec(name, 'bool', t)
        return SymBool(t)
    def char(self, name, dom=None): return self.string(name, 1, 1, dom)
    def string(self, name, lo, hi, dom=None):
        """String of lo..hi characters, each any character of dom (a list gives one domain per position)."""
        import z3
        from .core import E
        from .strs import SymStr, Ch, rangesTerm, _toRanges
        n = lo
        if hi > lo:
            L = z3.Int('l!' + name)
            E.base(('l', name, lo, hi), z3.And(L >= lo, L <= hi))
            n = E.realise(L)
        es = []
        for k in range(n):
            dm = domOf(dom[k] if isinstance(dom, list) and not isinstance(dom[0], tuple) else dom)
            t = z3.Int('c!%s!%d' % (name, k))
            if dm is None:
                E.base(('c', name, k), z3.And(t >= 0, t <= 0x10FFFF, z3.Or(t < 0xD800, t > 0xDFFF)))
            else:
                tm = rangesTerm(t, _toRanges(sorted(dm)))
                E.base(('c', name, k, hash(dm)), tm)
            es.append(Ch(t, dm))
        self._rec(name, 'str', list(es))
        return SymStr(es) if es else ''
    def choice(self, name, seq):
        """One of the concrete values in seq (a fork)."""
        import z3
        from .core import E
        seq = list(seq)
        t = z3.Int('x!' + name)
        E.base(('x', name, len(seq)), z3.And(t >= 0, t < len(seq)))
        self._rec(name, 'int', t)
        return seq[E.realise(t)]
    def oneof(self, name, strings):
        """One of the given strings, kept symbolic (per length): forks on the length only."""
        import z3
        from .core import E
        from .strs import SymStr, Ch
        byLen = {}
        for s in strings: byLen.setdefault(len(s), []).append(s)
        lens = sorted(byLen)
        L = z3.Int('ol!' + name)
        E.base(('ol', name, tuple(lens)), z3.Or([L == k for k in lens]))
        n = E.realise(L)
        cand = byLen[n]
        if n == 0 or len(cand) == 1:
            self._rec(name, 'const', cand[0])
            return cand[0]
        ts = [z3.Int('oc!%s!%d!%d' % (name, n, k)) for k in range(n)]
        E.base(('oc', name, n, len(cand)), z3.Or([z3.And([t == ord(c) for t, c in zip(ts, s)]) for s in cand]))
        es = [Ch(t, frozenset(ord(s[k]) for s in cand)) for k, t in enumerate(ts)]
        es = [chr(next(iter(e.dom))) if len(e.dom) == 1 else e for e in es]
        self._rec(name, 'str', list(es))
        return SymStr(es)
    def assume(self, cond):
        from .core import E, asTerm
        E.assume(asTerm(cond))
    def reach(self, label):
        self.reached[label] = self.reached.get(label, 0) + 1
    def check(self, cond, label, known=None):
        """Decide `cond` over the whole path: the solver looks for a model of path and not cond."""
        import z3
        from .core import E, asTerm, SxViolationStop, mkBool
        if isinstance(label, tuple): label = ' '.join(str(x) for x in label)
        self.reach(label)
        E.nchecks += 1
        E.stats.checks += 1
        t = asTerm(cond)
        if t is True or (not isinstance(t, bool) and z3.is_true(t)): 
            return
        kreg = False
        if known is not None:
            kid, kc = known
            kreg = asTerm(kc)
        if t is False or z3.is_false(t):
            if E.pos < len(E.prefix): raise SxViolationStop()
            if kreg is True:
                E.violations.append((label, model_inputs(E.getModel()), kid)); raise SxViolationStop()
            if kreg is not False:
                self._query(label, z3.BoolVal(True), kreg, kid)
            else:
                E.violations.append((label, model_inputs(E.getModel()), None))
            raise SxViolationStop()
        if E.pos >= len(E.prefix):
            E.stats.check_queries += 1
            self._query(label, z3.Not(t), kreg, known[0] if known else None)
        E.assume(t)
    def _query(self, label, bad, kreg, kid):
        import z3
        from .core import E
        if kreg is False:
            if E._check(bad) == z3.sat:
                E.violations.append((label, model_inputs(E.solver.model()), None))
        else:
            k = z3.BoolVal(True) if kreg is True else kreg
            if E._check(bad, z3.Not(k)) == z3.sat:
                E.violations.append((label, model_inputs(E.solver.model()), None))
            if E._check(bad, k) == z3.sat:
                E.violations.append((label, model_inputs(E.solver.model()), kid))
    def fail(self, label):
        self.check(False, label)
    def observe(self, label, value):
        from .core import E
        E.observed.append((label, value))
    def attempt(self, fn, *args, **kw):
        try:
            return Outcome(True, fn(*args, **kw), None)
        except Exception as e:
            return Outcome(False, None, e)
    def both(self, *conds):
        """Conjunction without forking."""
        from .core import conj, asTerm, mkBool
        return mkBool(conj([asTerm(c) for c in conds]))
    def either(self, *conds):
        from .core import disj, asTerm, mkBool
        return mkBool(disj([asTerm(c) for c in conds]))
    def no(self, c):
        from .core import neg, asTerm, mkBool
        return mkBool(neg(asTerm(c)))
    def same(self, a, b):
        """Structural equality without forking."""
        from .core import mkBool
        from .strs import eqTerm
        return mkBool(eqTerm(a, b))
    def charsIn(self, s, chars):
        """Every character of s is one of chars (no fork)."""
        from .core import mkBool, conj
        from .strs import elems, elemPred
        return mkBool(conj([elemPred(x, ('instr', chars), lambda c: c in chars) for x in elems(s)]))
    def concrete(self, v):
        """Fork until v is concrete."""
        from .strs import deepRealise
        return deepRealise(v)


def model_inputs(model):
    from .core import E
    import z3
    out = {}
    for name, (kind, v) in E.inputs.items():
        if kind == 'const': out[name] = v
        elif kind == 'str':
            out[name] = ''.join(x if isinstance(x, str) else chr(model.eval(x.t, model_completion=True).as_long()) for x in v)
        elif kind == 'int': out[name] = model.eval(v, model_completion=True).as_long()
        elif kind == 'bool': out[name] = z3.is_true(model.eval(v, model_completion=True))
    return out


def concretise(x, model, depth=0):
    from .core import SymBool, SymInt
    from .strs import SymStr
    import z3
    if isinstance(x, SymStr):
        return ''.join(c if isinstance(c, str) else chr(model.eval(c.t, model_completion=True).as_long()) for c in x.e)
    if isinstance(x, SymInt): return model.eval(x.t, model_completion=True).as_long()
    if isinstance(x, SymBool): return z3.is_true(model.eval(x.t, model_completion=True))
    return plain(x, lambda y: concretise(y, model, depth + 1), depth)

def plain(x, rec, depth=0):
    if x is None or type(x) in (str, int, bool): return x
    if isinstance(x, bytes): return x.hex()
    if depth > 6: return type(x).__name__
    if isinstance(x, (list, tuple)): return [rec(y) for y in x]
    if isinstance(x, dict): return [[rec(k), rec(v)] for k, v in x.items()]
    if isinstance(x, (set, frozenset)) or type(x).__name__ == 'SSet': return sorted((rec(y) for y in x), key=repr)
    if isinstance(x, BaseException): return 'EXC:' + type(x).__name__
    if isinstance(x, type): return x.__name__
    if isinstance(x, float): return repr(x)
    return 'OBJ:' + type(x).__name__

def plainValue(x, depth=0):
    return plain(x, lambda y: plainValue(y, depth + 1), depth)


class ConcCtx:
    symbolic = False
    def __init__(self, inputs):
        self.inputs = inputs; self.observed = []; self.reached = {}
    def _get(self, name): return self.inputs[name]
    def int(self, name, lo, hi): return self._get(name)
    def bool(self, name): return self._get(name)
    def char(self, name, dom=None): return self._get(name)
    def string(self, name, lo, hi, dom=None): return self._get(name)
    def choice(self, name, seq): return list(seq)[self._get(name)]
    def oneof(self, name, strings): return self._get(name)
    def assume(self, cond):
        if not cond: raise AssumptionFailed()
    def reach(self, label): pass
    def check(self, cond, label, known=None):
        if isinstance(label, tuple): label = ' '.join(str(x) for x in label)
        if not cond: raise CheckFailed(label)
    def fail(self, label): self.check(False, label)
    def observe(self, label, value): self.observed.append((label, plainValue(value)))
    attempt = SymCtx.attempt
    def both(self, *conds): return all(conds)
    def either(self, *conds): return any(conds)
    def no(self, c): return not c
    def same(self, a, b): return a == b
    def charsIn(self, s, chars): return all(c in chars for c in s)
    def concrete(self, v): return v


# --- files ---------------------------------------------------------------------------------------
# Concrete runs use real files below the scratch HOME.  Symbolic runs use an in-memory table for the contents
# (plus an empty real file, so that existence tests on the path behave).
class _VFile:
    def __init__(self, vfs, path, mode, bom=False):
        self.vfs = vfs; self.path = path; self.mode = mode; self.name = path; self.closed = False
        if 'r' in mode and 'w' not in mode:
            self.lines = vfs.lines(path); self.i = 0
        elif 'a' in mode: self.buf = [vfs.data.get(path, '')]
        else: self.buf = []; vfs.data[path] = ''
    def __enter__(self): return self
    def __exit__(self, *a):
        self.close(); return False
    def close(self):
        if not self.closed and 'r' not in self.mode: self._flush()
        self.closed = True
    def flush(self): 
        if 'r' not in self.mode: self._flush()
    def _flush(self):
        from .strs import joinStr
        self.buf = [joinStr('', self.buf)]
        self.vfs.data[self.path] = self.buf[0]
    def write(self, s):
        self.buf.append(s); return len(s)
    def writelines(self, it):
        for s in it: self.buf.append(s)
    def __iter__(self): return self
    def __next__(self):
        if self.i >= len(self.lines): raise StopIteration
        self.i += 1
        return self.lines[self.i - 1]
    def readline(self):
        if self.i >= len(self.lines): return ''
        self.i += 1
        return self.lines[self.i - 1]
    def readlines(self):
        r = self.lines[self.i:]; self.i = len(self.lines); return r
    def read(self, n=-1):
        from .strs import joinStr
        return joinStr('', self.readlines())
    def seek(self, n): self.i = 0
    def readable(self): return 'r' in self.mode
    def writable(self): return 'r' not in self.mode

class _VFS:
    def __init__(self): self.data = {}; self.linesOf = {}
    def lines(self, path):
        if path in self.linesOf: return list(self.linesOf[path])
        d = self.data[path]
        out = []; cur = 0
        s = d
        while len(s):
            i = s.find('\n')
            if i < 0: out.append(s); break
            out.append(s[:i+1]); s = s[i+1:]
        return out

def _symOpen(path, mode='r', *a, **k):
    from . import instr
    import os
    p = os.path.normpath(str(path))
    vfs = instr.VFS
    if vfs is not None and 'b' not in mode:
        if ('r' in mode and (p in vfs.data or p in vfs.linesOf)) or ('r' not in mode and '+' not in mode):
            if 'r' not in mode: open(p, 'w').close()
            vfs.linesOf.pop(p, None) if 'r' not in mode else None
            return _VFile(vfs, p, mode)
    return open(path, mode, *a, **k)

def _scratch():
    import os
    d = os.path.join(os.environ['HOME'], 'w%d' % os.getpid())
    os.makedirs(d, exist_ok=True)
    return d

def _symFile(self, name, lines, finalNewline=True):
    """A text file with the given lines (no newline characters in them); returns its path."""
    import os
    from . import instr
    if instr.VFS is None or getattr(instr, 'VFS_OWNER', None) is not self:
        instr.VFS = _VFS(); instr.VFS_OWNER = self
        instr.OVERRIDES[open] = _symOpen
        import xml.etree.ElementTree as ET
        from . import xmlsym
        instr.OVERRIDES[ET.ElementTree] = xmlsym.ElementTree
        import sqlite3
        from . import sqlsym
        instr.OVERRIDES[sqlite3.connect] = sqlsym.connect; sqlsym.DBS.clear()
    p = os.path.normpath(os.path.join(_scratch(), name))
    if not os.path.exists(p): open(p, 'w').write('x')
    instr.VFS.linesOf[p] = [l + '\n' if (i + 1 < len(lines) or finalNewline) else l for i, l in enumerate(lines)]
    return p
def _symReadBack(self, path):
    import os
    from . import instr
    return instr.VFS.data[os.path.normpath(str(path))]
def _concFile(self, name, lines, finalNewline=True):
    import os
    p = os.path.join(_scratch(), name)
    with open(p, 'wt', encoding='utf-8', newline='') as f:
        f.write('\n'.join(lines) + ('\n' if finalNewline and lines else ''))
    return p
def _symXML(self, path):
    """The root element of the XML file (raises ParseError when it is not well formed)"""
    from . import xmlsym
    return xmlsym.parse(self.readBack(path))
def _concXML(self, path):
    import xml.etree.ElementTree as ET
    return ET.ElementTree().parse(str(path))
def _concReadBack(self, path):
    with open(path, 'rt', encoding='utf-8', newline='') as f: return f.read()
def _symOut(self, name):
    """Path of a file the code under test will write."""
    p = _symFile(self, name, [])
    return p
def _concOut(self, name):
    import os
    return os.path.join(_scratch(), name)
SymCtx.file = _symFile; SymCtx.readBack = _symReadBack; SymCtx.outPath = _symOut
ConcCtx.file = _concFile; ConcCtx.readBack = _concReadBack; ConcCtx.outPath = _concOut
def _symTable(self, path, table):
    """The rows of a table of a database which was written"""
    import os
    from . import sqlsym
    return list(sqlsym.DBS[os.path.normpath(str(path))][table.lower()].rows)
def _concTable(self, path, table):
    import sqlite3
    c = sqlite3.connect(str(path))
    try: return c.execute('select * from "%s"' % table).fetchall()
    finally: c.close()
def _fill(connect, path, tables):
    c = connect(path)
    for name, (cols, rows) in tables.items():
        c.execute('CREATE TABLE %s (%s)' % (name, ', '.join(cols)))
        for r in rows: c.execute('INSERT INTO %s VALUES(%s)' % (name, ','.join('?' * len(cols))), r)
    c.commit()
def _symDatabase(self, name, tables):
    """A database with the given tables {name: (column definitions, rows)}; returns its path"""
    import os
    from . import sqlsym
    p = _symFile(self, name, [])
    os.remove(p); _fill(sqlsym.connect, p, tables)
    return p
def _concDatabase(self, name, tables):
    import os, sqlite3
    p = os.path.join(_scratch(), name)
    if os.path.exists(p): os.remove(p)
    _fill(sqlite3.connect, p, tables)
    return p
SymCtx.table = _symTable; ConcCtx.table = _concTable
SymCtx.database = _symDatabase; ConcCtx.database = _concDatabase
SymCtx.xml = _symXML; ConcCtx.xml = _concXML
def _scratchDir(self):
    """A fresh empty real directory."""
    import os, shutil
    d = os.path.join(_scratch(), 'dir')
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    return d
SymCtx.scratchDir = _scratchDir; ConcCtx.scratchDir = _scratchDir
