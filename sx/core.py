"""
sx.core -- the symbolic executor: path exploration, decisions, solver interface.

A path is a re-execution of the harness with a prefix of recorded decisions.  Every place where the
real code asks for a concrete truth value of a symbolic term (SymBool.__bool__) or for a concrete
value of a symbolic term (realise) is a decision, settled by z3 under the current path condition.
"""
import time
import os
import z3


class SxControl(BaseException):
    """Base class of everything the engine raises to steer a path (never caught by `except Exception`)."""

class SxInfeasible(SxControl):
    """An assumption is unsatisfiable on this path."""

class SxBudget(SxControl):
    """This path has taken more decisions than allowed, or the wall-clock budget ran out."""

class SxViolationStop(SxControl):
    """Stop the path: a check is false on the whole remaining path."""


class Sym:
    """Marker base class of every symbolic proxy."""
    __slots__ = ()


class Stats:
    __slots__ = ('paths', 'decisions', 'queries', 'solver_s', 'unknown', 'forced', 'checks', 'check_queries',
                 'infeasible', 'aborted', 'realised')
    def __init__(self):
        for s in self.__slots__: setattr(self, s, 0)
    def asdict(self):
        return {s: getattr(self, s) for s in self.__slots__}


class Engine:
    """One per worker process."""
    def __init__(self):
        self.active = False
        self.newSolver()
        self.stats = Stats()
        self.maxDecisions = 4000
        self.deadline = None
        self.functions = set()
        self.quiet = 0          # >0: evaluating something under the current model only (no forks recorded)
        self.reset([])
        self.solverDecisions = []

    def newSolver(self):
        self.solver = z3.Solver()
        self.solver.set('timeout', 20000)
        self.levels = []          # decisions currently pushed, one solver level each
        self.levelTerms = []      # (kept alive so that the ids in self.levels stay unique)

    # --- path lifecycle -----------------------------------------------------
    def reset(self, prefix):
        self.prefix = prefix
        self.pos = 0
        self.trail = []           # decisions of this path
        self.model = None
        self.pending = []         # alternative prefixes discovered on this path
        self.known = {}           # term id -> bool, decided on this path
        self.knownTerms = []      # keeps the terms alive so that ids stay unique
        self.pinned = {}          # term id -> value
        self.inputs = {}          # name -> proxy/structure (how to get the replay value out of a model)
        self.observed = []
        self.violations = []
        self.names = set()
        self.nlev = 0             # solver levels consumed so far on this path
        self.nchecks = 0

    def begin(self, prefix):
        self.reset(prefix)
        self.active = True

    def end(self):
        self.active = False

    # --- solver plumbing ----------------------------------------------------
    def _push(self, key, term):
        """Make `term` hold from here on.  Shares solver levels with the previous path when the keys agree."""
        i = self.nlev
        if i < len(self.levels):
            if self.levels[i] == key:
                self.nlev += 1
                return
            n = len(self.levels) - i
            self.solver.pop(n)
            del self.levels[i:]
            del self.levelTerms[i:]
        self.solver.push()
        self.solver.add(term)
        self.levels.append(key)
        self.levelTerms.append(term)
        self.nlev += 1

    def _sync(self):
        """Drop solver levels left over from the previous path."""
        n = len(self.levels) - self.nlev
        if n > 0:
            self.solver.pop(n)
            del self.levels[self.nlev:]
            del self.levelTerms[self.nlev:]

    def _check(self, *extra):
        self._sync()
        t = time.perf_counter()
        self.stats.queries += 1
        if extra:
            r = self.solver.check(*extra)
        else:
            r = self.solver.check()
        dt = time.perf_counter() - t
        self.stats.solver_s += dt
        if r == z3.unknown:
            self.stats.unknown += 1
        if self.deadline and time.time() > self.deadline:
            raise SxBudget('deadline')
        return r

    def getModel(self):
        if self.model is None:
            r = self._check()
            if r == z3.unsat:
                raise SxInfeasible()
            if r == z3.unknown:
                raise SxBudget('unknown')
            self.model = self.solver.model()
        return self.model

    def evalBool(self, term):
        v = self.getModel().eval(term, model_completion=True)
        return z3.is_true(v)

    def evalInt(self, term):
        v = self.getModel().eval(term, model_completion=True)
        return v.as_long()

    # --- decisions ----------------------------------------------------------
    def fork(self, term):
        """Concrete truth value of the z3 Bool `term` on this path (both are explored when both are possible)."""
        if not self.active:
            raise RuntimeError('symbolic value used outside a path')
        if z3.is_true(term): return True
        if z3.is_false(term): return False
        tid = term.get_id()
        k = self.known.get(tid)
        if k is not None: return k
        if self.quiet:
            return self.evalBool(term)
        i = self.pos
        self.pos += 1
        if i >= self.maxDecisions: raise SxBudget('decisions')
        self.stats.decisions += 1
        if i < len(self.prefix):
            d = self.prefix[i]
            v = d[1]
            assert d[0] == 'b' or d[0] == 'f', ('nondeterministic replay', d, term)
            if d[0] == 'b':
                self._push((tid, v), term if v else z3.Not(term))
            self.trail.append(d)
        else:
            v = self.evalBool(term)
            other = z3.Not(term) if v else term
            r = self._check(other)
            if r == z3.unsat:
                self.stats.forced += 1
                self.trail.append(('f', v))
            else:
                self.pending.append(self.trail + [('b', not v)])
                if SITES: _site(term)
                self._push((tid, v), term if v else z3.Not(term))
                self.trail.append(('b', v))
                # the current model still satisfies the path
        self.known[tid] = v
        self.knownTerms.append(term)
        return v

    def realise(self, term, value=None):
        """Concrete value of the z3 Int `term`: forks over every value it can take on this path."""
        if z3.is_int_value(term): return term.as_long()
        tid = term.get_id()
        if tid in self.pinned: return self.pinned[tid]
        if self.quiet: return self.evalInt(term)
        self.stats.realised += 1
        excluded = ()
        while True:
            i = self.pos
            if i >= self.maxDecisions: raise SxBudget('decisions')
            self.pos += 1
            self.stats.decisions += 1
            if i < len(self.prefix):
                d = self.prefix[i]
                assert d[0] in ('r', 'n', 'rf'), ('nondeterministic replay', d, term)
                v = d[1]
                self.trail.append(d)
                if d[0] == 'n':
                    excluded = v
                    self._push((tid, 'n', v), z3.And([term != x for x in v]))
                    continue
                if d[0] == 'r':
                    self._push((tid, 'r', v), term == v)
            else:
                v = self.evalInt(term)
                r = self._check(term != v)
                if r == z3.unsat:
                    self.trail.append(('rf', v))
                    self.stats.forced += 1
                else:
                    head = self.trail[:-1] if excluded else self.trail
                    self.pending.append(head + [('n', excluded + (v,))])
                    if SITES: _site(term)
                    self._push((tid, 'r', v), term == v)
                    self.trail.append(('r', v))
            self.pinned[tid] = v
            self.knownTerms.append(term)
            return v

    def assume(self, term):
        """Restrict this path to `term`."""
        if term is True or z3.is_true(term): return
        if term is False or z3.is_false(term):
            self.stats.infeasible += 1
            raise SxInfeasible()
        i = self.pos
        self.pos += 1
        tid = term.get_id()
        self._push((tid, 'a'), term)
        if i < len(self.prefix):
            self.trail.append(self.prefix[i])
        else:
            self.trail.append(('a', True))
            if self.model is not None and not self.evalBool(term):
                self.model = None
            if self.model is None:
                r = self._check()
                if r == z3.unsat:
                    self.stats.infeasible += 1
                    raise SxInfeasible()
                if r == z3.sat:
                    self.model = self.solver.model()
        self.known[tid] = True
        self.knownTerms.append(term)

    def base(self, key, term):
        """Domain constraint of a fresh input variable."""
        self._push(('base', key), term)
        if self.model is not None and not self.evalBool(term):
            self.model = None


E = Engine()


SITES = os.environ.get('SX_SITES')
def _site(term):
    """Debugging aid: append where a path forked to the file named by SX_SITES."""
    import traceback
    fr = [f for f in traceback.extract_stack() if '/sx/' not in f.filename][-3:]
    with open(SITES, 'a') as f: f.write(' < '.join('%s:%d' % (x.filename.split('/')[-1], x.lineno) for x in reversed(fr)) + '  ' + str(term)[:60].replace('\n', ' ') + '\n')

def asTerm(x):
    """z3 Bool (or python bool) of a bool-ish value."""
    if isinstance(x, SymBool): return x.t
    return bool(x)


class SymBool(Sym):
    __slots__ = ('t',)
    def __init__(self, t): self.t = t
    def __bool__(self): return E.fork(self.t)
    def __eq__(self, o):
        if isinstance(o, SymBool): return mkBool(self.t == o.t)
        if isinstance(o, bool): return self if o else mkBool(z3.Not(self.t))
        if isinstance(o, (int, SymInt)): return mkInt(z3.If(self.t, 1, 0)) == o
        return False
    def __ne__(self, o):
        r = self.__eq__(o)
        return mkBool(z3.Not(r.t)) if isinstance(r, SymBool) else not r
    def __and__(self, o):
        if isinstance(o, SymBool): return mkBool(z3.And(self.t, o.t))
        if o is True: return self
        if o is False: return False
        return NotImplemented
    __rand__ = __and__
    def __or__(self, o):
        if isinstance(o, SymBool): return mkBool(z3.Or(self.t, o.t))
        if o is True: return True
        if o is False: return self
        return NotImplemented
    __ror__ = __or__
    def __xor__(self, o):
        return self != o
    __rxor__ = __xor__
    def __hash__(self): return hash(bool(self))
    def __int__(self): return int(bool(self))
    __index__ = __int__
    def _i(self): return mkInt(z3.If(self.t, 1, 0))
    def __add__(self, o): return self._i() + o
    def __radd__(self, o): return o + self._i()
    def __sub__(self, o): return self._i() - o
    def __lt__(self, o): return self._i() < o
    def __gt__(self, o): return self._i() > o
    def __repr__(self): return repr(bool(self))
    __str__ = __repr__
    def __format__(self, spec): return format(bool(self), spec)


def mkBool(t):
    if t is True or t is False: return t
    if z3.is_true(t): return True
    if z3.is_false(t): return False
    return SymBool(t)


def _iv(o):
    """z3 operand of an int-like python value, or None."""
    if isinstance(o, SymInt): return o.t
    if isinstance(o, SymBool): return z3.If(o.t, z3.IntVal(1), z3.IntVal(0))
    if isinstance(o, bool): return int(o)
    if isinstance(o, int): return o
    return None


class SymInt(Sym):
    __slots__ = ('t', 'lo', 'hi')
    def __init__(self, t, lo=None, hi=None):
        self.t = t; self.lo = lo; self.hi = hi
    def __bool__(self): return E.fork(self.t != 0)
    def __index__(self): return E.realise(self.t)
    def __int__(self): return E.realise(self.t)
    def __hash__(self): return hash(E.realise(self.t))
    def __eq__(self, o):
        v = _iv(o)
        if v is None:
            if isinstance(o, float): return E.realise(self.t) == o
            return False
        return mkBool(z3.simplify(self.t == v)) if isinstance(o, SymInt) else mkBool(self.t == v)
    def __ne__(self, o):
        v = _iv(o)
        if v is None:
            if isinstance(o, float): return E.realise(self.t) != o
            return True
        return mkBool(z3.simplify(self.t != v))
    def _cmp(self, o, f):
        v = _iv(o)
        if v is None:
            if isinstance(o, float): return f(E.realise(self.t), o)
            return NotImplemented
        return mkBool(f(self.t, v))
    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)
    def _ar(self, o, f):
        v = _iv(o)
        if v is None:
            if isinstance(o, float): return f(E.realise(self.t), o)
            return NotImplemented
        return mkInt(f(self.t, v))
    def __add__(self, o): return self._ar(o, lambda a, b: a + b)
    def __radd__(self, o): return self._ar(o, lambda a, b: b + a)
    def __sub__(self, o): return self._ar(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._ar(o, lambda a, b: b - a)
    def __mul__(self, o):
        from . import strs
        if isinstance(o, (str, list, tuple, strs.SymStr)): return o * E.realise(self.t)
        return self._ar(o, lambda a, b: a * b)
    def __rmul__(self, o):
        from . import strs
        if isinstance(o, (str, list, tuple, strs.SymStr)): return o * E.realise(self.t)
        return self._ar(o, lambda a, b: b * a)
    def __neg__(self): return mkInt(-self.t)
    def __pos__(self): return self
    def __abs__(self): return mkInt(z3.If(self.t >= 0, self.t, -self.t))
    def __floordiv__(self, o):
        if isinstance(o, int) and o > 0: return mkInt(self.t / o)
        return E.realise(self.t) // o
    def __mod__(self, o):
        if isinstance(o, int) and o > 0: return mkInt(self.t % o)
        return E.realise(self.t) % o
    def __divmod__(self, o): return (self // o, self % o)
    def __truediv__(self, o): return E.realise(self.t) / o
    def __rtruediv__(self, o): return o / E.realise(self.t)
    def __rfloordiv__(self, o): return o // E.realise(self.t)
    def __rmod__(self, o):
        from . import strs
        if isinstance(o, str): return strs.percentFormat(o, self)
        return o % E.realise(self.t)
    def __pow__(self, o): return E.realise(self.t) ** o
    def __rpow__(self, o): return o ** E.realise(self.t)
    def __lshift__(self, o):
        if isinstance(o, int): return mkInt(self.t * (1 << o))
        return E.realise(self.t) << o
    def __rshift__(self, o):
        if isinstance(o, int): return mkInt(self.t / (1 << o))
        return E.realise(self.t) >> o
    def __and__(self, o):
        if isinstance(o, int) and o >= 0 and (o & (o + 1)) == 0: return mkInt(self.t % (o + 1))
        return E.realise(self.t) & (E.realise(o.t) if isinstance(o, SymInt) else o)
    __rand__ = __and__
    def __or__(self, o): return E.realise(self.t) | (E.realise(o.t) if isinstance(o, SymInt) else o)
    __ror__ = __or__
    def __float__(self): return float(E.realise(self.t))
    def __str__(self): return str(E.realise(self.t))
    def __repr__(self): return repr(E.realise(self.t))
    def __format__(self, spec): return format(E.realise(self.t), spec)
    def __getattr__(self, name):
        if name.startswith('__'): raise AttributeError(name)
        return getattr(E.realise(self.t), name)


def mkInt(t):
    if isinstance(t, int): return t
    if z3.is_int_value(t): return t.as_long()
    return SymInt(t)


def conj(parts):
    """And of python bools / z3 terms -> python bool or z3 term."""
    out = []
    for p in parts:
        if p is True: continue
        if p is False: return False
        out.append(p)
    if not out: return True
    if len(out) == 1: return out[0]
    return z3.And(out)


def disj(parts):
    out = []
    for p in parts:
        if p is False: continue
        if p is True: return True
        out.append(p)
    if not out: return False
    if len(out) == 1: return out[0]
    return z3.Or(out)


def neg(p):
    if p is True: return False
    if p is False: return True
    return z3.Not(p)
