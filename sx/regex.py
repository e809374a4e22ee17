"""
sx.regex -- `re` over symbolic strings: a backtracking matcher over CPython's own parse tree of the pattern.
Every character test is a fork decided by z3; the search order is that of `re`.
"""
import re
try:
    from re import _parser as sre_parse, _constants as sc
except ImportError:
    import sre_parse, sre_constants as sc
from .core import E, mkBool, disj, conj, neg
from .strs import (SymStr, elems, elemPred, elemEq, tf, mkStr, realiseStr, isStr, mapElems)

_cache = {}
def _tree(pat):
    k = (pat.pattern, pat.flags)
    r = _cache.get(k)
    if r is None:
        r = _cache[k] = sre_parse.parse(pat.pattern, pat.flags)
    return r

class Unsupported(Exception): pass

_CATS = {
    sc.CATEGORY_DIGIT: ('isdecimal', str.isdecimal, False),
    sc.CATEGORY_NOT_DIGIT: ('isdecimal', str.isdecimal, True),
    sc.CATEGORY_SPACE: ('isspace', str.isspace, False),
    sc.CATEGORY_NOT_SPACE: ('isspace', str.isspace, True),
    sc.CATEGORY_WORD: ('reword', lambda c: c.isalnum() or c == '_', False),
    sc.CATEGORY_NOT_WORD: ('reword', lambda c: c.isalnum() or c == '_', True),
}

def _isword(e): return elemPred(e, 'reword', lambda c: c.isalnum() or c == '_')

class M:
    """One matching attempt."""
    def __init__(self, e, flags):
        self.e = e; self.n = len(e); self.flags = flags
        self.ic = bool(flags & re.IGNORECASE)
        self.memo = {}

    def charIn(self, x, items):
        """bool/term"""
        negate = False; parts = []
        for op, av in items:
            if op is sc.NEGATE: negate = True
            elif op is sc.LITERAL:
                parts.append(self.lit(x, av))
            elif op is sc.RANGE:
                lo, hi = av
                if self.ic:
                    parts.append(elemPred(x, ('rangeic', lo, hi), lambda c: any(lo <= ord(k) <= hi for k in (c, c.lower(), c.upper()) if len(k) == 1)))
                else:
                    parts.append(elemPred(x, ('range', lo, hi), lambda c: lo <= ord(c) <= hi))
            elif op is sc.CATEGORY:
                nm, f, ng = _CATS[av]
                p = elemPred(x, nm, f)
                parts.append(neg(p) if ng else p)
            else: raise Unsupported(str(op))
        r = disj(parts)
        return neg(r) if negate else r

    def lit(self, x, av):
        if self.ic:
            ch = chr(av)
            alts = {ch, ch.lower(), ch.upper()}
            return disj([elemEq(x, a) for a in alts if len(a) == 1])
        return elemEq(x, chr(av))

    def seq(self, nodes, k, i, groups, cont):
        """Match nodes[k:] at i, then cont(i, groups); returns the result of cont or None."""
        if k == len(nodes): return cont(i, groups)
        op, av = nodes[k]
        e, n = self.e, self.n
        nxt = lambda j, g: self.seq(nodes, k + 1, j, g, cont)
        if op is sc.LITERAL:
            if i < n and tf(self.lit(e[i], av)): return nxt(i + 1, groups)
            return None
        if op is sc.NOT_LITERAL:
            if i < n and tf(neg(self.lit(e[i], av))): return nxt(i + 1, groups)
            return None
        if op is sc.ANY:
            if i < n and (self.flags & re.DOTALL or not tf(elemEq(e[i], '\n'))): return nxt(i + 1, groups)
            return None
        if op is sc.IN:
            if i < n and tf(self.charIn(e[i], av)): return nxt(i + 1, groups)
            return None
        if op is sc.BRANCH:
            for alt in av[1]:
                r = self.seq(list(alt), 0, i, groups, nxt)
                if r is not None: return r
            return None
        if op is sc.SUBPATTERN:
            g, addf, delf, p = av
            if addf or delf: raise Unsupported('inline flags')
            start = i
            def close(j, gr):
                if g is not None:
                    gr = dict(gr); gr[g] = (start, j)
                return nxt(j, gr)
            return self.seq(list(p), 0, i, groups, close)
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, p = av
            p = list(p)
            greedy = op is sc.MAX_REPEAT
            hi = n + 1 if hi is sc.MAXREPEAT else hi
            def rep(count, j, gr):
                def more():
                    if count >= hi: return None
                    def after(j2, gr2):
                        if j2 == j and count >= lo: return None
                        return rep(count + 1, j2, gr2)
                    return self.seq(p, 0, j, gr, after)
                if count < lo: return more()
                if greedy:
                    r = more()
                    return r if r is not None else nxt(j, gr)
                r = nxt(j, gr)
                return r if r is not None else more()
            return rep(0, i, groups)
        if op is sc.AT:
            if av in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING):
                ok = i == 0 or (av is sc.AT_BEGINNING and self.flags & re.MULTILINE and tf(elemEq(e[i-1], '\n')))
            elif av is sc.AT_END:
                ok = i == n or (i == n - 1 and tf(elemEq(e[i], '\n'))) or (self.flags & re.MULTILINE and tf(elemEq(e[i], '\n')))
            elif av is sc.AT_END_STRING: ok = i == n
            elif av in (sc.AT_BOUNDARY, sc.AT_NON_BOUNDARY):
                a = i > 0 and tf(_isword(e[i-1]))
                b = i < n and tf(_isword(e[i]))
                ok = (a != b) == (av is sc.AT_BOUNDARY)
            else: raise Unsupported(str(av))
            return nxt(i, groups) if ok else None
        if op in (sc.ASSERT, sc.ASSERT_NOT):
            direction, p = av
            p = list(p)
            if direction < 0:
                lo, hi = p and sre_width(av[1])
                if lo != hi: raise Unsupported('lookbehind')
                r = None
                if i - lo >= 0:
                    r = self.seq(p, 0, i - lo, groups, lambda j, g: (j, g) if j == i else None)
            else:
                r = self.seq(p, 0, i, groups, lambda j, g: (j, g))
            if op is sc.ASSERT:
                return nxt(i, r[1]) if r is not None else None
            return nxt(i, groups) if r is None else None
        if op is sc.GROUPREF:
            if av not in groups: return None
            s, t = groups[av]
            w = t - s
            if i + w > n: return None
            if tf(conj([elemEq(e[s + d], e[i + d]) for d in range(w)])): return nxt(i + w, groups)
            return None
        if op is getattr(sc, 'ATOMIC_GROUP', None):
            r = self.seq(list(av), 0, i, groups, lambda j, g: (j, g))
            return nxt(*r) if r is not None else None
        if op is getattr(sc, 'POSSESSIVE_REPEAT', None):
            raise Unsupported('possessive')
        raise Unsupported(str(op))

def sre_width(p): return p.getwidth()


class SymMatch:
    def __init__(self, pat, s, start, end, groups):
        self.re = pat; self.string = s; self._g = dict(groups); self._g[0] = (start, end)
        self.pos = 0; self.endpos = len(s)
    def _key(self, k):
        if isinstance(k, str): k = self.re.groupindex[k] if k in self.re.groupindex else self._bad()
        if k > self.re.groups: self._bad()
        return k
    def _bad(self): raise IndexError('no such group')
    def _one(self, k, default=None):
        k = self._key(k)
        if k not in self._g: return default
        a, b = self._g[k]
        return self.string[a:b]
    def group(self, *ks):
        if not ks: return self._one(0)
        if len(ks) == 1: return self._one(ks[0])
        return tuple(self._one(k) for k in ks)
    __getitem__ = lambda self, k: self._one(k)
    def groups(self, default=None): return tuple(self._one(k, default) for k in range(1, self.re.groups + 1))
    def groupdict(self, default=None): return {n: self._one(k, default) for n, k in self.re.groupindex.items()}
    def start(self, k=0): return self._g.get(self._key(k), (-1, -1))[0]
    def end(self, k=0): return self._g.get(self._key(k), (-1, -1))[1]
    def span(self, k=0): return self._g.get(self._key(k), (-1, -1))
    @property
    def lastindex(self):
        ks = [k for k in self._g if k]
        return max(ks) if ks else None
    def __bool__(self): return True
    def expand(self, template): return _expand(self, template)


def _attempt(pat, s, i, full=False):
    e = elems(s)
    m = M(e, pat.flags)
    n = len(e)
    r = m.seq(list(_tree(pat)), 0, i, {}, (lambda j, g: (j, g) if j == n else None) if full else (lambda j, g: (j, g)))
    if r is None: return None
    return SymMatch(pat, s, i, r[0], r[1])

def match(pat, s, pos=0, endpos=None): return _attempt(pat, s, int(pos))
def fullmatch(pat, s, pos=0, endpos=None): return _attempt(pat, s, int(pos), True)
def search(pat, s, pos=0, endpos=None):
    for i in range(int(pos), len(s) + 1):
        r = _attempt(pat, s, i)
        if r is not None: return r
    return None
def finditer(pat, s, pos=0, endpos=None):
    i = int(pos); out = []; n = len(s)
    while i <= n:
        r = _attempt(pat, s, i)
        if r is None: i += 1; continue
        a, b = r.span()
        out.append(r)
        i = b if b > a else b + 1
    return iter(out)
def findall(pat, s, pos=0, endpos=None):
    out = []
    for m in finditer(pat, s, pos):
        if pat.groups == 0: out.append(m.group())
        elif pat.groups == 1: out.append(m._one(1, ''))
        else: out.append(m.groups(''))
    return out
def _expand(m, template):
    if '\\' not in template: return list(template)
    import re as _re
    parsed = sre_parse.parse_template(template, m.re)
    out = []
    if isinstance(parsed, tuple): raise Unsupported('template')
    for p in parsed:
        if isinstance(p, int): out += elems(m._one(p, ''))
        else: out += list(p)
    return out
def subn(pat, repl, s, count=0):
    out = []; pos = 0; n = 0
    for m in finditer(pat, s):
        if count and n >= count: break
        a, b = m.span()
        out += elems(s)[pos:a]
        if callable(repl): out += elems(repl(m))
        elif isinstance(repl, SymStr): out += repl.e
        else: out += _expand(m, repl)
        pos = b; n += 1
    out += elems(s)[pos:]
    return mkStr(out), n
def sub(pat, repl, s, count=0): return subn(pat, repl, s, count)[0]
def split(pat, s, maxsplit=0):
    out = []; pos = 0; n = 0
    for m in finditer(pat, s):
        if maxsplit and n >= maxsplit: break
        a, b = m.span()
        out.append(s[pos:a]); out += list(m.groups()); pos = b; n += 1
    out.append(s[pos:])
    return out

METHODS = dict(match=match, fullmatch=fullmatch, search=search, finditer=finditer, findall=findall, split=split)

def patternMethod(pat, name, args, kw):
    """pat.name(*args): args contain a symbolic string."""
    if not isinstance(pat.pattern, str): return NotImplemented
    try:
        if name in ('sub', 'subn'):
            repl, s = args[0], args[1]
            count = args[2] if len(args) > 2 else kw.get('count', 0)
            return (sub if name == 'sub' else subn)(pat, repl, s, count)
        return METHODS[name](pat, *args, **kw)
    except Unsupported:
        return NotImplemented

def moduleFunction(name, args, kw):
    """re.name(pattern, ...)"""
    pat = args[0]
    if isinstance(pat, SymStr): pat = realiseStr(pat)
    flags = kw.pop('flags', 0)
    idx = {'match': 2, 'fullmatch': 2, 'search': 2, 'finditer': 2, 'findall': 2, 'split': 3, 'sub': 4, 'subn': 4}[name]
    if len(args) > idx: flags = args[idx]; args = args[:idx]
    p = re.compile(pat, flags) if not isinstance(pat, re.Pattern) else pat
    return patternMethod(p, name, args[1:], kw)
