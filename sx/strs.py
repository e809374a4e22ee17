"""
sx.strs -- symbolic strings.

A SymStr has a concrete length; each element is a concrete one-character str or a Ch (z3 Int code point with a
stated domain).  Anything that needs a concrete answer (truth of a comparison, position of a match) is a fork
decided by z3; operations that are not modelled realise the string (fork over every value it can still take).
"""
import string as _string
import sys
import z3
from .core import E, Sym, SymBool, SymInt, mkBool, mkInt, conj, disj, neg, SxBudget

MAXCP = 0x10FFFF

class Ch:
    """A symbolic character: z3 Int term and the set of code points it can have (None: any but surrogates)."""
    __slots__ = ('t', 'dom')
    def __init__(self, t, dom):
        self.t = t; self.dom = dom


# --- predicates and maps over code points --------------------------------------------------------
_rangesCache = {}

def _toRanges(cps):
    out = []
    for c in cps:
        if out and out[-1][1] == c - 1: out[-1][1] = c
        else: out.append([c, c])
    return [tuple(r) for r in out]

def rangesTerm(t, ranges):
    parts = []
    for a, b in ranges:
        if a == b: parts.append(t == a)
        elif a <= 0 and b >= MAXCP: return True
        else: parts.append(z3.And(t >= a, t <= b))
    return disj(parts)

def _allCps():
    for c in range(0, 0xD800): yield c
    for c in range(0xE000, MAXCP + 1): yield c

def predTerm(ch, name, pred):
    """z3 term / bool: does pred(chr) hold of the symbolic character?  (pred is a real python function of a 1-char str)"""
    key = (name, ch.dom)
    r = _rangesCache.get(key)
    if r is None:
        if ch.dom is not None:
            yes = sorted(c for c in ch.dom if pred(chr(c)))
            if not yes: r = False
            elif len(yes) == len(ch.dom): r = True
            elif 2 * len(yes) <= len(ch.dom): r = (False, _toRanges(yes))
            else: r = (True, _toRanges(sorted(c for c in ch.dom if not pred(chr(c)))))
        else:
            r = (False, _toRanges([c for c in _allCps() if pred(chr(c))]))
            if not r[1]: r = False
        if name is not None: _rangesCache[key] = r
    if r is True or r is False: return r
    t = rangesTerm(ch.t, r[1])
    return neg(t) if r[0] else t

def elemPred(e, name, pred):
    if isinstance(e, str): return pred(e)
    return predTerm(e, name, pred)

_mapCache = {}
def mapElems(e, name, fn):
    """List of elements: fn (1-char str -> str) applied to the element.  May fork when fn changes the length."""
    if isinstance(e, str): return list(fn(e))
    key = (name, e.dom)
    r = _mapCache.get(key)
    if r is None:
        cps = sorted(e.dom) if e.dom is not None else _allCps()
        deltas = {}; longs = []; newdom = set()
        for c in cps:
            s = fn(chr(c))
            if len(s) == 1:
                d = ord(s) - c
                if d: deltas.setdefault(d, []).append(c)
                if e.dom is not None: newdom.add(ord(s))
            else: longs.append(c)
        r = ({d: _toRanges(v) for d, v in deltas.items()}, longs, frozenset(newdom) if e.dom is not None else None)
        _mapCache[key] = r
    deltas, longs, newdom = r
    for c in longs:
        if E.fork(e.t == c): return list(fn(chr(c)))
    if not deltas: return [e]
    t = e.t
    for d, rs in deltas.items():
        cond = rangesTerm(e.t, rs)
        t = z3.If(cond, e.t + d, t)
    return [Ch(t, newdom)]

def elemEq(a, b):
    if isinstance(a, str):
        if isinstance(b, str): return a == b
        a, b = b, a
    if isinstance(b, str):
        c = ord(b)
        if a.dom is not None and c not in a.dom: return False
        p = E.pinned.get(a.t.get_id()) if E.active else None
        if p is not None: return p == c
        return a.t == c
    if a.t.get_id() == b.t.get_id(): return True
    if a.dom is not None and b.dom is not None and not (a.dom & b.dom): return False
    return a.t == b.t

def elemOrd(e):
    return ord(e) if isinstance(e, str) else e.t

def elems(x):
    """Elements of a str or SymStr."""
    if isinstance(x, SymStr): return x.e
    return list(x)

def mkStr(es):
    for e in es:
        if not isinstance(e, str): return SymStr(list(es))
    return ''.join(es)

def eqStr(a, b):
    """bool / z3 term: a == b for str/SymStr."""
    ea, eb = elems(a), elems(b)
    if len(ea) != len(eb): return False
    out = []
    for x, y in zip(ea, eb):
        r = elemEq(x, y)
        if r is False: return False
        if r is not True: out.append(r)
    return conj(out)

def ltStr(a, b, orEqual):
    ea, eb = elems(a), elems(b)
    n = min(len(ea), len(eb))
    # build from the back
    if len(ea) < len(eb): res = True
    elif len(ea) > len(eb): res = False
    else: res = orEqual
    for i in range(n - 1, -1, -1):
        x, y = elemOrd(ea[i]), elemOrd(eb[i])
        if isinstance(x, int) and isinstance(y, int):
            if x < y: res = True
            elif x > y: res = False
        else:
            lt = x < y
            eq = x == y
            if res is True: res = z3.Or(lt, eq)
            elif res is False: res = lt
            else: res = z3.Or(lt, z3.And(eq, res))
    return res

def matchAt(hay, i, needle):
    """bool / z3 term: the elements `needle` occur in `hay` at i."""
    if i < 0 or i + len(needle) > len(hay): return False
    out = []
    for k, n in enumerate(needle):
        r = elemEq(hay[i + k], n)
        if r is False: return False
        if r is not True: out.append(r)
    return conj(out)

def tf(t):
    """fork on bool/term"""
    if t is True or t is False: return t
    return E.fork(t)

def isStr(x): return isinstance(x, (str, SymStr))

def realiseStr(s):
    if isinstance(s, str): return s
    for i, e in enumerate(s.e):
        if not isinstance(e, str):
            c = chr(E.realise(e.t))
            if not E.quiet: s.e[i] = c
            else:
                s = SymStr(list(s.e)); s.e[i] = c
    return ''.join(x if isinstance(x, str) else chr(E.realise(x.t)) for x in s.e)

def modelStr(s):
    """Value under the current model, without any decision."""
    if isinstance(s, str): return s
    return ''.join(x if isinstance(x, str) else chr(E.evalInt(x.t)) for x in s.e)

_WS = lambda c: c.isspace()

class SymStr(Sym):
    __slots__ = ('e',)
    def __init__(self, e): self.e = e

    # --- basics
    def __len__(self): return len(self.e)
    def __bool__(self): return len(self.e) > 0
    def __iter__(self):
        for x in self.e: yield x if isinstance(x, str) else SymStr([x])
    def __getitem__(self, i):
        if isinstance(i, slice):
            i = slice(*[None if v is None else int(v) for v in (i.start, i.stop, i.step)])
            return mkStr(self.e[i])
        x = self.e[i.__index__()]
        return x if isinstance(x, str) else SymStr([x])
    def __hash__(self): return hash(realiseStr(self))
    def __eq__(self, o):
        if not isStr(o): return False
        return mkBool(eqStr(self, o))
    def __ne__(self, o):
        if not isStr(o): return True
        return mkBool(neg(eqStr(self, o)))
    def __lt__(self, o):
        if not isStr(o): return NotImplemented
        return mkBool(ltStr(self, o, False))
    def __le__(self, o):
        if not isStr(o): return NotImplemented
        return mkBool(ltStr(self, o, True))
    def __gt__(self, o):
        if not isStr(o): return NotImplemented
        return mkBool(ltStr(o, self, False))
    def __ge__(self, o):
        if not isStr(o): return NotImplemented
        return mkBool(ltStr(o, self, True))
    def __add__(self, o):
        if not isStr(o): raise TypeError('can only concatenate str (not "%s") to str' % type(o).__name__)
        return mkStr(self.e + elems(o))
    def __radd__(self, o):
        if not isStr(o): raise TypeError('can only concatenate str (not "%s") to str' % type(o).__name__)
        return mkStr(elems(o) + self.e)
    def __mul__(self, n):
        return mkStr(self.e * n.__index__())
    __rmul__ = __mul__
    def __mod__(self, args): return realiseStr(self) % _deepRealise(args)
    def __rmod__(self, fmt): return percentFormat(fmt, self)
    def containsTerm(self, sub):
        sub = elems(sub)
        return disj([matchAt(self.e, i, sub) for i in range(0, len(self.e) - len(sub) + 1)])
    def __contains__(self, sub):
        if not isStr(sub): raise TypeError("'in <string>' requires string as left operand, not " + type(sub).__name__)
        return tf(self.containsTerm(sub))
    def __str__(self): return realiseStr(self)
    def __repr__(self): return repr(realiseStr(self))
    def __format__(self, spec): return format(realiseStr(self), spec)
    def __reduce__(self): raise TypeError('cannot pickle SymStr')

    # --- searching
    def _bounds(self, start, end):
        n = len(self.e)
        s, e, _ = slice(start, end).indices(n)
        if start is not None and int(start) > n: return None
        return s, e
    def find(self, sub, start=None, end=None):
        b = self._bounds(start, end)
        if b is None: return -1
        s, e = b
        sub = elems(sub)
        for i in range(s, e - len(sub) + 1):
            if tf(matchAt(self.e, i, sub)): return i
        return -1
    def rfind(self, sub, start=None, end=None):
        b = self._bounds(start, end)
        if b is None: return -1
        s, e = b
        sub = elems(sub)
        for i in range(e - len(sub), s - 1, -1):
            if tf(matchAt(self.e, i, sub)): return i
        return -1
    def index(self, sub, start=None, end=None):
        r = self.find(sub, start, end)
        if r < 0: raise ValueError('substring not found')
        return r
    def rindex(self, sub, start=None, end=None):
        r = self.rfind(sub, start, end)
        if r < 0: raise ValueError('substring not found')
        return r
    def count(self, sub, start=None, end=None):
        b = self._bounds(start, end)
        if b is None: return 0
        s, e = b
        sub = elems(sub)
        if not sub: return e - s + 1
        if len(sub) == 1:   # no overlap possible: stay symbolic
            n = 0; terms = []
            for i in range(s, e):
                r = elemEq(self.e[i], sub[0])
                if r is True: n += 1
                elif r is not False: terms.append(z3.If(r, 1, 0))
            if not terms: return n
            return mkInt(z3.Sum(terms) + n)
        n = 0; i = s
        while i <= e - len(sub):
            if tf(matchAt(self.e, i, sub)): n += 1; i += len(sub)
            else: i += 1
        return n
    def startswith(self, p, start=None, end=None):
        b = self._bounds(start, end)
        if isinstance(p, tuple):
            return mkBool(disj([self._sw(x, b) for x in p]))
        return mkBool(self._sw(p, b))
    def _sw(self, p, b):
        if not isStr(p): raise TypeError('startswith first arg must be str or a tuple of str, not ' + type(p).__name__)
        if b is None: return False
        s, e = b
        p = elems(p)
        if s + len(p) > e: return False
        return matchAt(self.e, s, p)
    def endswith(self, p, start=None, end=None):
        b = self._bounds(start, end)
        if isinstance(p, tuple):
            return mkBool(disj([self._ew(x, b) for x in p]))
        return mkBool(self._ew(p, b))
    def _ew(self, p, b):
        if not isStr(p): raise TypeError('endswith first arg must be str or a tuple of str, not ' + type(p).__name__)
        if b is None: return False
        s, e = b
        p = elems(p)
        if e - len(p) < s: return False
        return matchAt(self.e, e - len(p), p)

    # --- rewriting
    def replace(self, old, new, count=-1):
        old, new = elems(old), elems(new)
        count = int(count)
        if not old: return realiseStr(self).replace('', mkConcrete(new), count)
        if len(old) == 1 and len(new) == 1 and count < 0:   # pointwise: stays symbolic
            out = []
            for x in self.e:
                r = elemEq(x, old[0])
                if r is True: out.append(new[0])
                elif r is False: out.append(x)
                else:
                    n = new[0]
                    dom = None
                    nd = {ord(n)} if isinstance(n, str) else n.dom
                    if isinstance(x, Ch) and x.dom is not None and nd is not None:
                        dom = (x.dom - {ord(old[0])} if isinstance(old[0], str) else x.dom) | nd
                    out.append(Ch(z3.If(r, elemOrd(n), elemOrd(x)), frozenset(dom) if dom is not None else None))
            return mkStr(out)
        out = []; i = 0; n = 0
        while i < len(self.e):
            if (count < 0 or n < count) and tf(matchAt(self.e, i, old)):
                out += new; i += len(old); n += 1
            else:
                out.append(self.e[i]); i += 1
        return mkStr(out)
    def _map(self, name, fn):
        out = []
        for x in self.e: out += mapElems(x, name, fn)
        return mkStr(out)
    def lower(self): return self._map('lower', str.lower)
    def upper(self): return self._map('upper', str.upper)
    def casefold(self): return self._map('casefold', str.casefold)
    def swapcase(self): return self._map('swapcase', str.swapcase)
    def capitalize(self):
        if not self.e: return ''
        out = mapElems(self.e[0], 'title', str.title)
        for x in self.e[1:]: out += mapElems(x, 'lower', str.lower)
        return mkStr(out)
    def title(self):
        out = []; prev = False
        for x in self.e:
            out += mapElems(x, 'lower', str.lower) if prev else mapElems(x, 'title', str.title)
            prev = tf(elemPred(x, 'cased', lambda c: c.lower() != c.upper() or c.islower() or c.isupper() or c.istitle()))
        return mkStr(out)
    def translate(self, table):
        if not isinstance(table, dict): return realiseStr(self).translate(table)
        return self._map(('translate', id(table)), lambda c: c.translate(table))
    def _stripset(self, chars):
        if chars is None: return ('isspace', _WS)
        if isinstance(chars, SymStr):
            return None
        cs = chars
        return (('instr', cs), lambda c: c in cs)
    def strip(self, chars=None):
        r = self.lstrip(chars)
        return r.rstrip(chars)
    def lstrip(self, chars=None):
        ps = self._stripset(chars)
        i = 0
        while i < len(self.e) and self._instrip(self.e[i], ps, chars): i += 1
        return mkStr(self.e[i:])
    def rstrip(self, chars=None):
        ps = self._stripset(chars)
        j = len(self.e)
        while j > 0 and self._instrip(self.e[j-1], ps, chars): j -= 1
        return mkStr(self.e[:j])
    def _instrip(self, x, ps, chars):
        if ps is None: return tf(disj([elemEq(x, c) for c in chars.e]))
        return tf(elemPred(x, ps[0], ps[1]))
    def removeprefix(self, p):
        if self.startswith(p): return self[len(p):]
        return self
    def removesuffix(self, p):
        if len(p) and self.endswith(p): return self[:len(self)-len(p)]
        return self
    def zfill(self, w):
        n = int(w) - len(self.e)
        if n <= 0: return self
        if self.e and tf(elemPred(self.e[0], 'sign', lambda c: c in '+-')):
            return mkStr(self.e[:1] + ['0'] * n + self.e[1:])
        return mkStr(['0'] * n + self.e)
    def ljust(self, w, fill=' '):
        n = int(w) - len(self.e)
        return self if n <= 0 else mkStr(self.e + elems(fill) * n)
    def rjust(self, w, fill=' '):
        n = int(w) - len(self.e)
        return self if n <= 0 else mkStr(elems(fill) * n + self.e)
    def center(self, w, fill=' '): return realiseStr(self).center(int(w), mkConcrete(elems(fill)))

    # --- splitting
    def split(self, sep=None, maxsplit=-1):
        maxsplit = int(maxsplit)
        if sep is None:
            out = []; i = 0; n = len(self.e)
            while True:
                while i < n and tf(elemPred(self.e[i], 'isspace', _WS)): i += 1
                if i >= n: break
                if maxsplit >= 0 and len(out) >= maxsplit:
                    out.append(mkStr(self.e[i:]).rstrip())
                    break
                j = i
                while j < n and not tf(elemPred(self.e[j], 'isspace', _WS)): j += 1
                out.append(mkStr(self.e[i:j])); i = j
            return out
        sp = elems(sep)
        if not sp: raise ValueError('empty separator')
        out = []; i = 0; start = 0
        while i <= len(self.e) - len(sp):
            if maxsplit >= 0 and len(out) >= maxsplit: break
            if tf(matchAt(self.e, i, sp)):
                out.append(mkStr(self.e[start:i])); i += len(sp); start = i
            else: i += 1
        out.append(mkStr(self.e[start:]))
        return out
    def rsplit(self, sep=None, maxsplit=-1):
        maxsplit = int(maxsplit)
        if maxsplit < 0: return self.split(sep)
        if sep is None: return realiseStr(self).rsplit(None, maxsplit)
        sp = elems(sep)
        if not sp: raise ValueError('empty separator')
        out = []; i = len(self.e) - len(sp); end = len(self.e)
        while i >= 0:
            if len(out) >= maxsplit: break
            if tf(matchAt(self.e, i, sp)):
                out.append(mkStr(self.e[i+len(sp):end])); end = i; i -= len(sp)
            else: i -= 1
        out.append(mkStr(self.e[:end]))
        out.reverse()
        return out
    def splitlines(self, keepends=False):
        out = []; i = 0; start = 0; n = len(self.e)
        brk = lambda c: len(('a' + c + 'b').splitlines()) == 2
        while i < n:
            if tf(elemPred(self.e[i], 'linebreak', brk)):
                j = i + 1
                if tf(elemEq(self.e[i], '\r')) and j < n and tf(elemEq(self.e[j], '\n')): j += 1
                out.append(mkStr(self.e[start:j if keepends else i]))
                i = start = j
            else: i += 1
        if start < n: out.append(mkStr(self.e[start:]))
        return out
    def partition(self, sep):
        i = self.find(sep)
        if i < 0: return (self, '', '')
        return (self[:i], sep, self[i+len(sep):])
    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0: return ('', '', self)
        return (self[:i], sep, self[i+len(sep):])

    # --- classification
    def _all(self, name):
        f = getattr(str, name)
        if not self.e: return False
        return mkBool(conj([elemPred(x, name, f) for x in self.e]))
    def isdigit(self): return self._all('isdigit')
    def isdecimal(self): return self._all('isdecimal')
    def isnumeric(self): return self._all('isnumeric')
    def isalpha(self): return self._all('isalpha')
    def isalnum(self): return self._all('isalnum')
    def isspace(self): return self._all('isspace')
    def isprintable(self): return self._all('isprintable')
    def isascii(self): return mkBool(conj([elemPred(x, 'isascii', str.isascii) for x in self.e]))
    def isupper(self):
        low = lambda c: c.islower() or c.istitle()
        return mkBool(conj([neg(elemPred(x, 'lowtitle', low)) for x in self.e] + [disj([elemPred(x, 'isupper', str.isupper) for x in self.e])]))
    def islower(self):
        up = lambda c: c.isupper() or c.istitle()
        return mkBool(conj([neg(elemPred(x, 'uptitle', up)) for x in self.e] + [disj([elemPred(x, 'islower', str.islower) for x in self.e])]))
    def join(self, it):
        return joinStr(self, it)
    def encode(self, *a, **k): return realiseStr(self).encode(*a, **k)
    def format(self, *a, **k): return formatStr(realiseStr(self), a, k)
    def __getattr__(self, name):
        if name.startswith('__') and name.endswith('__'): raise AttributeError(name)
        return getattr(realiseStr(self), name)   # unmodelled: concretise


def mkConcrete(es):
    return ''.join(x if isinstance(x, str) else chr(E.realise(x.t)) for x in es)

def joinStr(sep, it):
    sep = elems(sep); out = []; first = True
    for i, x in enumerate(it):
        if not isStr(x): raise TypeError('sequence item %d: expected str instance, %s found' % (i, type(x).__name__))
        if not first: out += sep
        first = False
        out += elems(x)
    return mkStr(out)


# --- int <-> str ---------------------------------------------------------------------------------
def symToInt(s, base=10):
    """int(s) for a SymStr."""
    if base != 10: return int(realiseStr(s), base)
    ok = conj([elemPred(x, 'asciidigit', lambda c: '0' <= c <= '9') for x in s.e]) if s.e else False
    if tf(ok):
        total = 0
        for x in s.e:
            total = total * 10 + (ord(x) - 48 if isinstance(x, str) else x.t - 48)
        return mkInt(z3.simplify(total)) if not isinstance(total, int) else total
    st = s.strip()
    if len(st) == 0 : raise ValueError("invalid literal for int() with base 10: ''")
    e = elems(st); body = e; sign = 1
    if tf(elemPred(e[0], 'sign', lambda c: c in '+-')):
        if tf(elemEq(e[0], '-')): sign = -1
        body = e[1:]
    if not body: raise ValueError('invalid literal for int() with base 10')
    if tf(conj([elemPred(x, 'asciidigit', lambda c: '0' <= c <= '9') for x in body])):
        total = 0
        for x in body:
            total = total * 10 + (ord(x) - 48 if isinstance(x, str) else x.t - 48)
        if isinstance(total, int): return sign * total
        return mkInt(z3.simplify(total * sign))
    # something that is neither an ASCII digit, nor an underscore, nor another decimal digit: always ValueError
    bad = disj([elemPred(x, 'intbad', lambda c: not (c.isdecimal() or c == '_')) for x in body])
    if tf(bad): raise ValueError('invalid literal for int() with base 10')
    return int(realiseStr(mkStr(e)))   # underscores or non-ASCII decimal digits: concretise

_fresh = [0]
def intToStr(n):
    """str(n) for a SymInt: forks on sign and number of digits, the digits stay symbolic."""
    tid = n.t.get_id()
    if tid in E.pinned: return str(E.pinned[tid])
    if E.quiet: return str(E.evalInt(n.t))
    if E.fork(n.t < 0):
        return '-' + intToStr(mkInt(z3.simplify(-n.t)))
    E.knownTerms.append(n.t)
    k = 1
    while not E.fork(n.t < 10 ** k):
        k += 1
        if k > 12: return str(E.realise(n.t))
    digits = frozenset(range(48, 58))
    if k == 1: return SymStr([Ch(z3.simplify(n.t + 48), digits)])
    out = []
    total = 0
    for j in range(k):
        name = 'dig!%d!%d' % (tid, j)
        d = z3.Int(name)
        lo = 1 if j == 0 else 0
        E.base((name, k), z3.And(d >= lo, d <= 9))
        total = total * 10 + d
        out.append(Ch(d + 48, digits))
    E.assume(z3.simplify(total) == n.t)
    return SymStr(out)


# --- formatting ----------------------------------------------------------------------------------
def toStr(x):
    """str(x) keeping symbols."""
    if isinstance(x, SymStr): return x
    if isinstance(x, SymInt): return intToStr(x)
    if isinstance(x, SymBool): return 'True' if x else 'False'
    return None

def _deepRealise(x):
    if isinstance(x, SymStr): return realiseStr(x)
    if isinstance(x, SymInt): return E.realise(x.t)
    if isinstance(x, SymBool): return bool(x)
    if type(x) is tuple: return tuple(_deepRealise(y) for y in x)
    if type(x) is list: return [_deepRealise(y) for y in x]
    if type(x) is dict or type(x).__name__ == 'SDict': return {_deepRealise(k): _deepRealise(v) for k, v in x.items()}
    if type(x) in (set, frozenset): return type(x)(_deepRealise(v) for v in x)
    if type(x).__name__ == 'SSet': return set(_deepRealise(v) for v in x)
    return x
deepRealise = _deepRealise

def hasSym(x, depth=2):
    if isinstance(x, Sym): return True
    if depth and type(x) in (list, tuple, set, frozenset):
        for y in x:
            if hasSym(y, depth - 1): return True
    elif depth and type(x).__name__ == 'SSet':
        for y in x:
            if hasSym(y, depth - 1): return True
    elif depth and (type(x) is dict or type(x).__name__ == 'SDict'):
        for k, v in x.items():
            if hasSym(k, depth - 1) or hasSym(v, depth - 1): return True
    return False

def formatOne(v, spec, conv=None):
    """format(v, spec) after conversion, for possibly symbolic v."""
    if not isinstance(v, Sym):
        if conv == 'r':
            v = reprAny(v) if hasSym(v) else repr(v)
        elif conv == 's':
            v = reprAny(v) if hasSym(v) else str(v)
        elif conv == 'a': v = ascii(v)
        elif hasSym(v): v = reprAny(v) if type(v) in (list, tuple) and not spec else deepRealise(v)
        if isinstance(v, Sym): return formatOne(v, spec)
        return format(v, spec if isinstance(spec, str) else realiseStr(spec))
    if conv in ('r', 'a'):
        if conv == 'r' and not spec and isinstance(v, SymStr): return reprStr(v)
        return format(repr(deepRealise(v)), spec)
    if not spec:
        return toStr(v)
    spec = spec if isinstance(spec, str) else realiseStr(spec)
    if isinstance(v, SymInt) and conv is None:
        if len(spec) >= 2 and spec[0] == '0' and spec[1:].rstrip('d').isdigit():
            return _z(toStr(v), int(spec[1:].rstrip('d')))
        if spec.rstrip('d').isdigit():
            s = toStr(v)
            return s.rjust(int(spec.rstrip('d')))
        if spec == 'd': return toStr(v)
        if spec == ',':
            if E.fork(z3.And(v.t > -1000, v.t < 1000)): return toStr(v)
    if isinstance(v, SymStr) or conv == 's':
        s = toStr(v)
        if spec.isdigit(): return s.ljust(int(spec))
        if spec[0] == '<' and spec[1:].isdigit(): return s.ljust(int(spec[1:]))
        if spec[0] == '>' and spec[1:].isdigit(): return s.rjust(int(spec[1:]))
    return format(deepRealise(v), spec)

def reprStr(v):
    """repr() keeping symbols that need no escape."""
    syms = mkStr([x for x in v.e if not isinstance(x, str)])
    if isinstance(syms, str) or (syms.isprintable() and '\\' not in syms):
        q = "'"
        if "'" in v:
            if '"' in v:
                if isinstance(syms, SymStr) and "'" in syms: # decide each symbol
                    v = mkStr(["'" if not isinstance(x, str) and tf(eqTerm(mkStr([x]), "'")) else x for x in v.e])
                    if isinstance(v, str): return repr(v)
                q = 0
            else: q = '"'
        if q == 0: return mkStr(["'"] + [y for x in v.e for y in (list("\\'") if isinstance(x, str) and x == "'" else list(repr(x)[1:-1]) if isinstance(x, str) else [x])] + ["'"])
        return mkStr([q] + [y for x in v.e for y in ((x if x in '\'"' else list(repr(x)[1:-1])) if isinstance(x, str) else [x])] + [q])
    return repr(deepRealise(v))

def reprAny(x):
    """repr() of nested lists and tuples keeping symbols."""
    if isinstance(x, SymStr): return reprStr(x)
    if isinstance(x, SymInt): return intToStr(x)
    if isinstance(x, SymBool): return 'True' if x else 'False'
    if type(x) in (list, tuple) and hasSym(x, 4):
        o, c = '[]' if type(x) is list else '()'
        out = [o]
        for i, y in enumerate(x):
            if i: out += [',', ' ']
            out += elems(reprAny(y))
        if type(x) is tuple and len(x) == 1: out.append(',')
        return mkStr(out + [c])
    return repr(deepRealise(x) if hasSym(x, 4) else x)

def _z(s, w): return s.zfill(w)

def formatStr(fmt, args, kwargs):
    out = []; auto = 0
    f = _string.Formatter()
    for lit, field, spec, conv in f.parse(fmt):
        out += list(lit)
        if field is None: continue
        if field == '' or field[0] in '.[':
            field = str(auto) + field; auto += 1
        obj, _ = f.get_field(field, args, kwargs)
        if '{' in spec: spec = realiseStr(formatStr(spec, args, kwargs))
        out += elems(formatOne(obj, spec, conv))
    return mkStr(out)

def percentFormat(fmt, args):
    """fmt % args with symbols."""
    import re
    argt = args if isinstance(args, tuple) else (args,)
    if isinstance(args, dict): return fmt % deepRealise(args)
    out = []; i = 0; pos = 0
    for m in re.finditer(r'%(%|[-#0 +]*(?:\d+)?(?:\.\d+)?[a-zA-Z])', fmt):
        out += list(fmt[pos:m.start()]); pos = m.end()
        sp = m.group(1)
        if sp == '%': out.append('%'); continue
        v = argt[i]; i += 1
        if isinstance(v, SymStr) and sp == 's': out += v.e
        elif isinstance(v, SymInt) and sp in ('s', 'd', 'i'): out += elems(toStr(v))
        elif isinstance(v, SymInt) and sp[-1] == 'd' and sp[0] == '0' and sp[1:-1].isdigit(): out += elems(toStr(v).zfill(int(sp[1:-1])))
        elif isinstance(v, SymInt) and sp[-1] == 'd' and sp[:-1].isdigit(): out += elems(toStr(v).rjust(int(sp[:-1])))
        else: out += list(('%' + sp) % (deepRealise(v),))
    out += list(fmt[pos:])
    if i < len(argt): raise TypeError('not all arguments converted during string formatting')
    return mkStr(out)


def eqTerm(a, b):
    """bool / z3 term of a == b, structural over str/int/bool/None/tuple/list."""
    if isinstance(a, SymStr) or isinstance(b, SymStr):
        if isStr(a) and isStr(b): return eqStr(a, b)
        return False
    if isinstance(a, Sym) or isinstance(b, Sym):
        r = (a == b)
        return r.t if isinstance(r, SymBool) else bool(r)
    if type(a) is type(b) and type(a) in (tuple, list):
        if len(a) != len(b): return False
        out = []
        for x, y in zip(a, b):
            r = eqTerm(x, y)
            if r is False: return False
            out.append(r)
        return conj(out)
    r = (a == b)
    if isinstance(r, SymBool): return r.t
    return bool(r)
