"""
sx.sdict -- a dict that admits symbolic keys.  The empty dict displays of instrumented code make one, so that tables filled
during a run (indexes, counts, attributes) keep their symbolic keys.  Lookups fork on equality with the stored keys.
"""
from collections.abc import KeysView, ItemsView, ValuesView, MutableSet, Set
from .core import disj
from . import strs

class SK:
    __slots__ = ('k',)
    def __init__(self, k): self.k = k
MISS = SK(None)

class SDict(dict):
    __slots__ = ('ns',)
    def __init__(self, *a, **kw):
        dict.__init__(self)
        self.ns = 0
        self.update(*a, **kw)
    def _find(self, k):
        if not strs.hasSym(k):
            if dict.__contains__(self, k): return k
            if not self.ns: return MISS
            cand = [s for s in dict.keys(self) if type(s) is SK]
        else: cand = list(dict.keys(self))
        L = []
        for s in cand:
            t = strs.eqTerm(s.k if type(s) is SK else s, k)
            if t is True: return s
            if t is not False: L.append((s, t))
        if not L: return MISS
        if len(L) > 1 and not strs.tf(disj([t for _, t in L])): return MISS
        for s, t in L:
            if strs.tf(t): return s
        return MISS
    def term(self, k):
        """The term of `k in self`."""
        return disj([strs.eqTerm(y, k) for y in self])
    def __getitem__(self, k):
        s = self._find(k)
        if s is MISS: raise KeyError(k)
        return dict.__getitem__(self, s)
    def __setitem__(self, k, v):
        s = self._find(k)
        if s is MISS:
            if strs.hasSym(k): s = SK(k); self.ns += 1
            else: s = k
        dict.__setitem__(self, s, v)
    def __delitem__(self, k):
        s = self._find(k)
        if s is MISS: raise KeyError(k)
        dict.__delitem__(self, s)
        if type(s) is SK: self.ns -= 1
    def __contains__(self, k): return self._find(k) is not MISS
    def __iter__(self):
        for s in dict.__iter__(self): yield s.k if type(s) is SK else s
    def __reversed__(self):
        for s in dict.__reversed__(self): yield s.k if type(s) is SK else s
    def keys(self): return KeysView(self)
    def values(self): return dict.values(self)
    def items(self): return Items(self)
    def get(self, k, d=None):
        s = self._find(k)
        return d if s is MISS else dict.__getitem__(self, s)
    def setdefault(self, k, d=None):
        s = self._find(k)
        if s is MISS: self[k] = d; return d
        return dict.__getitem__(self, s)
    def pop(self, k, *d):
        s = self._find(k)
        if s is MISS:
            if d: return d[0]
            raise KeyError(k)
        if type(s) is SK: self.ns -= 1
        return dict.pop(self, s)
    def popitem(self):
        s, v = dict.popitem(self)
        if type(s) is SK: self.ns -= 1; s = s.k
        return s, v
    def update(self, *a, **kw):
        for x in a:
            for k, v in (x.items() if hasattr(x, 'keys') else x): self[k] = v
        for k, v in kw.items(): self[k] = v
    def clear(self): dict.clear(self); self.ns = 0
    def copy(self): return SDict(self)
    def __copy__(self): return SDict(self)
    def __deepcopy__(self, memo):
        import copy
        return SDict([(k, copy.deepcopy(v, memo)) for k, v in self.items()])
    def __reduce__(self): return (dict, (strs.deepRealise(self),))
    def __or__(self, o): r = SDict(self); r.update(o); return r
    def __ior__(self, o): self.update(o); return self
    def __eq__(self, o):
        if not isinstance(o, dict): return NotImplemented
        if len(self) != len(o): return False
        for k, v in self.items():
            s = o._find(k) if isinstance(o, SDict) else (k if k in o else MISS)
            if s is MISS: return False
            if not strs.tf(strs.eqTerm(v, dict.__getitem__(o, s))): return False
        return True
    def __ne__(self, o): return not self == o
    __hash__ = None
    def __repr__(self): return repr(strs.deepRealise(self))

class Items(ItemsView):
    def __iter__(self):
        for s, v in dict.items(self._mapping): yield (s.k if type(s) is SK else s, v)

class SSet(MutableSet):
    """A set that admits symbolic elements (kept apart by forking on equality), in insertion order."""
    __slots__ = ('d',)
    def __init__(self, x=()):
        self.d = SDict()
        for y in x: self.d[y] = None
    def __contains__(self, x): return x in self.d
    def __iter__(self): return iter(self.d)
    def __len__(self): return len(self.d)
    def add(self, x): self.d[x] = None
    def discard(self, x): self.d.pop(x, None)
    def remove(self, x): del self.d[x]
    def pop(self):
        for x in self.d:
            del self.d[x]
            return x
        raise KeyError('pop from an empty set')
    def clear(self): self.d.clear()
    def copy(self): return SSet(self)
    __copy__ = copy
    def __deepcopy__(self, memo): return SSet(self)
    def update(self, *a):
        for x in a:
            for y in x: self.d[y] = None
    def union(self, *a):
        r = SSet(self); r.update(*a)
        return r
    def difference_update(self, *a):
        for x in a:
            for y in list(x): self.discard(y)
    def difference(self, *a):
        r = SSet(self); r.difference_update(*a)
        return r
    def intersection(self, *a):
        r = SSet(self)
        for x in a:
            x = SSet(x); r = SSet([y for y in r if y in x])
        return r
    def intersection_update(self, *a): self.d = self.intersection(*a).d
    def symmetric_difference(self, x): return self ^ SSet(x)
    def issubset(self, x): return self <= SSet(x)
    def issuperset(self, x): return self >= SSet(x)
    def __eq__(self, o): return NotImplemented if not isinstance(o, (set, frozenset, Set)) else len(self) == len(o) and all(y in self for y in o)
    __hash__ = None
    def __repr__(self): return repr(strs.deepRealise(self))
