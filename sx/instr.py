"""
sx.instr -- load the real sources of /repo (and the harnesses) through an AST transformation that routes the
operations CPython would do at C level (calls, `in`, subscripts, f-strings, %-formatting) through helpers that
understand symbolic values.  The transformation is redone from the current source on every run.
"""
import ast
import builtins
import importlib.abc
import importlib.machinery
import importlib.util
import os
import re
import string
import sys
import types

from .core import E, Sym, SymBool, SymInt, SxControl, mkBool, mkInt, conj, disj, neg
from . import strs, regex
from .sdict import SDict, SSet
from .strs import SymStr, isStr, hasSym, deepRealise, realiseStr, tf, eqTerm, elems, mkStr

INSTR_PREFIXES = ('BibleOrgSys', 'harness')
LOGNAMES = {'fnPrint', 'vPrint', 'dPrint', 'print', 'halt_print'}
instrumentedFiles = {}


class T(ast.NodeTransformer):
    def __init__(self, modname, isHarness):
        self.modname = modname; self.stack = []; self.isHarness = isHarness
    # helpers
    def _h(self, name): return ast.Name(id=name, ctx=ast.Load())
    def _call(self, name, *args): return ast.Call(func=self._h(name), args=list(args), keywords=[])

    def visit_Expr(self, node):
        v = node.value
        if isinstance(v, ast.Call) and not self.isHarness:
            f = v.func
            nm = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None
            if nm in LOGNAMES:
                return ast.copy_location(ast.Pass(), node)
            logs = lambda x: isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == 'logging'
            if logs(f) or isinstance(f, ast.Name) and (f.id.endswith('Logger') or f.id in ('logger', 'loggingFunction')) or isinstance(f, ast.IfExp) and logs(f.body) and logs(f.orelse):
                # evaluate the arguments under the current model only, then drop the record
                self.generic_visit(v)
                lam = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]),
                                 body=ast.Tuple(elts=list(v.args) + [k.value for k in v.keywords], ctx=ast.Load()))
                return ast.copy_location(ast.Expr(self._call('_sx_log', lam)), node)
        self.generic_visit(node)
        return node
    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Name) and (f.id.startswith('_sx_') or f.id in ('super', 'locals', 'globals', 'vars', 'eval', 'exec', 'dir')):
            return node
        return ast.copy_location(ast.Call(func=self._h('_sx_call'), args=[f] + node.args, keywords=node.keywords), node)
    def visit_Compare(self, node):
        self.generic_visit(node)
        if any(isinstance(o, (ast.In, ast.NotIn)) for o in node.ops):
            if len(node.ops) == 1:
                r = self._call('_sx_in' if isinstance(node.ops[0], ast.In) else '_sx_notin', node.left, node.comparators[0])
                return ast.copy_location(r, node)
        return node
    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant): parts.append(v)
            else:
                conv = ast.Constant(None if v.conversion == -1 else chr(v.conversion))
                spec = v.format_spec if v.format_spec is not None else ast.Constant('')
                parts.append(ast.Tuple(elts=[v.value, spec, conv], ctx=ast.Load()))
        return ast.copy_location(self._call('_sx_fstr', *parts), node)
    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(self._call('_sx_mod', node.left, node.right), node)
        return node
    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and not isinstance(node.slice, ast.Slice):
            return ast.copy_location(self._call('_sx_get', node.value, node.slice), node)
        if isinstance(node.ctx, (ast.Store, ast.Del)) and not isinstance(node.slice, ast.Slice):
            self._keyed(node)
        return node
    def _keyed(self, t):
        """Whether the key of a store may stay symbolic depends on the container, evaluated once."""
        c = t.value
        if not self._pure(c):
            t.value = ast.copy_location(ast.NamedExpr(target=ast.Name(id='_sx_c', ctx=ast.Store()), value=c), c)
            c = ast.Name(id='_sx_c', ctx=ast.Load())
        t.slice = self._call('_sx_key', c, t.slice)
    def _pure(self, n):
        while isinstance(n, ast.Attribute): n = n.value
        return isinstance(n, ast.Name)
    def visit_AnnAssign(self, node):
        # annotations are never evaluated through helpers
        if node.value is not None: node.value = self.visit(node.value)
        node.target = self.visit(node.target)
        return node
    def visit_arg(self, node): return node
    def _func(self, node):
        self.stack.append(node.name)
        qual = '.'.join(self.stack)
        ret = node.returns; node.returns = None
        self.generic_visit(node)
        node.returns = ret
        self.stack.pop()
        if not self.isHarness:
            st = ast.Expr(self._call('_sx_enter', ast.Constant(self.modname + '.' + qual)))
            ast.copy_location(st, node.body[0])
            body = node.body
            i = 1 if (isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str)) else 0
            body.insert(i, st)
        return node
    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func
    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        self.stack.pop()
        return node
    def visit_AugAssign(self, node):
        node.value = self.visit(node.value)
        if isinstance(node.target, ast.Subscript) and not isinstance(node.target.slice, ast.Slice):
            t = node.target
            t.value = self.visit(t.value); t.slice = self.visit(t.slice)
            self._keyed(t)
        elif isinstance(node.target, ast.Attribute):
            node.target.value = self.visit(node.target.value)
        if isinstance(node.op, ast.Mod) and isinstance(node.target, ast.Name):
            new = ast.Assign(targets=[node.target], value=self._call('_sx_mod', ast.Name(id=node.target.id, ctx=ast.Load()), node.value))
            return ast.copy_location(new, node)
        return node
    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        return node
    def visit_Try(self, node):
        self.generic_visit(node)
        for i, h in enumerate(node.handlers):
            broad = h.type is None or (isinstance(h.type, ast.Name) and h.type.id == 'BaseException')
            if broad:
                guard = ast.ExceptHandler(type=ast.Name(id='_sx_Control', ctx=ast.Load()), name=None, body=[ast.Raise(exc=None, cause=None)])
                ast.copy_location(guard, h)
                node.handlers.insert(i, guard)
                break
        return node
    def visit_Dict(self, node):
        self.generic_visit(node)
        if not node.keys and not self.isHarness: return ast.copy_location(self._call('_sx_newdict'), node)
        node.keys = [k if (k is None or isinstance(k, ast.Constant)) else self._call('_sx_key', ast.Constant(None), k) for k in node.keys]
        return node
    def visit_Set(self, node):
        self.generic_visit(node)
        if self.isHarness or all(isinstance(k, ast.Constant) for k in node.elts): return node
        return ast.copy_location(self._call('_sx_mkset', ast.List(node.elts, ast.Load())), node)
    def visit_DictComp(self, node):
        self.generic_visit(node)
        node.key = self._call('_sx_key', ast.Constant(None), node.key)
        return node
    def visit_SetComp(self, node):
        self.generic_visit(node)
        if self.isHarness:
            node.elt = self._call('_sx_key', ast.Constant(None), node.elt)
            return node
        return ast.copy_location(self._call('_sx_mkset', ast.ListComp(node.elt, node.generators)), node)


def transformSource(source, filename, modname):
    tree = ast.parse(source, filename)
    tree = T(modname, modname.startswith('harness')).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec', dont_inherit=True)


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        data = self.get_data(path)
        instrumentedFiles[path] = fullname
        return transformSource(importlib.util.decode_source(data), path, fullname)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, roots): self.roots = roots
    def find_spec(self, fullname, path=None, target=None):
        top = fullname.split('.')[0]
        if top not in self.roots: return None
        spec = importlib.machinery.PathFinder.find_spec(fullname, path if path is not None else [self.roots[top]])
        if spec is None or spec.origin is None or not spec.origin.endswith('.py'): return spec
        spec.loader = Loader(fullname, spec.origin)
        spec.cached = None
        return spec


# --- runtime helpers -----------------------------------------------------------------------------
_enter_add = E.functions.add
def _sx_enter(q):
    if E.active: E.functions.add(q)

def _sx_log(lam):
    if not E.active: return
    if E.pos < len(E.prefix): return
    E.quiet += 1
    try:
        for x in lam(): pass
    finally:
        E.quiet -= 1

def _sx_in_term(x, c):
    """bool / z3 term for `x in c`, or None when there is nothing symbolic about it."""
    if isinstance(c, SymStr):
        if not isStr(x): raise TypeError("'in <string>' requires string as left operand, not " + type(x).__name__)
        return c.containsTerm(x)
    if isinstance(x, Sym) or (type(x) is tuple and hasSym(x)):
        if isinstance(c, str):
            if not isinstance(x, SymStr): raise TypeError("'in <string>' requires string as left operand, not " + type(x).__name__)
            n = len(x)
            if n == 1: return strs.elemPred(x.e[0], ('instr', c), lambda ch: ch in c)
            seen = set(); parts = []
            for i in range(0, len(c) - n + 1):
                sub = c[i:i+n]
                if sub not in seen:
                    seen.add(sub); parts.append(strs.eqStr(x, sub))
            return disj(parts)
        if isinstance(c, SymRange): return c.contains(x)
        if isinstance(c, range):
            if isinstance(x, SymInt):
                if len(c) == 0: return False
                lo, hi = min(c), max(c)
                import z3
                parts = [x.t >= lo, x.t <= hi]
                if abs(c.step) != 1: parts.append((x.t - lo) % abs(c.step) == 0)
                return z3.And(parts)
            return False
        if isinstance(c, types.MappingProxyType) or isinstance(c, (dict, list, tuple, set, frozenset, SSet, type({}.keys()), type({}.values()))):
            if isinstance(x, SymStr) and isinstance(c, (dict, set, frozenset)) and len(c) > 8 and type(c) is not SDict:
                return _strMember(x, c)
            return disj([eqTerm(x, y) for y in c])
        if hasattr(type(c), '__contains__'):
            if type(c).__module__.split('.')[0] in INSTR_PREFIXES or type(c).__module__.startswith('sx'):
                r = c.__contains__(x)
                return r.t if isinstance(r, SymBool) else r
            return None
        if hasattr(c, '__iter__'): return disj([eqTerm(x, y) for y in c])
        return None
    if type(c) in (list, tuple) and hasSym(c, 2):
        return disj([eqTerm(x, y) for y in c])
    if isinstance(c, SymRange): return c.contains(x)
    return None

_memberCache = {}
def _strMember(x, c):
    """x (SymStr) in a big dict/set of str."""
    n = len(x)
    key = (id(c), len(c), n)
    hit = _memberCache.get(key)
    if hit is None or hit[0] is not c:
        hit = (c, [k for k in c if isinstance(k, str) and len(k) == n], [k for k in c if not isinstance(k, (str, int, float, type(None), tuple))])
        _memberCache[key] = hit
    return disj([strs.eqStr(x, k) for k in hit[1]] + [eqTerm(x, k) for k in hit[2]])

def _sx_in(x, c):
    if isinstance(x, Sym) or isinstance(c, Sym) or type(x) is tuple or type(c) in (list, tuple):
        t = _sx_in_term(x, c)
        if t is not None: return mkBool(t)
        if hasSym(x): x = deepRealise(x)
    return x in c

def _sx_notin(x, c):
    r = _sx_in(x, c)
    return mkBool(neg(r.t)) if isinstance(r, SymBool) else not r

def _sx_fstr(*parts):
    out = []
    sym = False
    for p in parts:
        if type(p) is str: out.append(p)
        else:
            v, spec, conv = p
            if isinstance(v, Sym) or isinstance(spec, Sym) or hasSym(v):
                v = strs.formatOne(v, spec, conv)
                if isinstance(v, SymStr): sym = True
            else:
                if conv == 'r': v = repr(v)
                elif conv == 's': v = str(v)
                elif conv == 'a': v = ascii(v)
                try: v = format(v, spec)
                except TypeError:
                    if isinstance(v, Sym): v = strs.formatOne(v, spec)
                    else: raise
            out.append(v)
    if not sym: return ''.join(out)
    res = []
    for o in out: res += elems(o)
    return mkStr(res)

def _sx_mod(a, b):
    if isinstance(a, str) and (isinstance(b, Sym) or hasSym(b)): return strs.percentFormat(a, b)
    return a % b

def _sx_key(container, k):
    if isinstance(k, Sym) or (type(k) is tuple and hasSym(k)):
        if type(container) is SDict: return k
        if container is not None and not isinstance(container, (dict, list)): return k
        if isinstance(container, list): return k
        return deepRealise(k)
    return k

def _sx_newdict(): return SDict() if E.active else {}

def _sx_mkset(x): return _b_set(x) if E.active else set(x)

def _sx_get(d, k):
    if type(d) is SDict: return d[k]
    if (isinstance(k, Sym) or (type(k) is tuple and hasSym(k))):
        if isinstance(d, (dict, types.MappingProxyType)):
            t = _sx_in_term(k, d)
            if not tf(t):
                miss = getattr(type(d), '__missing__', None)
                if miss: return d[deepRealise(k)]
                raise KeyError(k)
            return d[deepRealise(k)]
        if isinstance(k, SymInt) and isinstance(d, (list, tuple, str, bytes)):
            # bounds first, so that the out-of-range case is one path
            n = len(d)
            import z3
            if not E.fork(z3.And(k.t >= -n, k.t < n)): raise IndexError(type(d).__name__ + ' index out of range')
            return d[E.realise(k.t)]
    return d[k]

class SymRange:
    """range() with a symbolic bound: iterating forks once per step."""
    def __init__(self, *a):
        if len(a) == 1: a = (0, a[0])
        self.start, self.stop = a[0], a[1]
        self.step = a[2] if len(a) > 2 else 1
        if isinstance(self.step, Sym): self.step = int(self.step)
    def __iter__(self):
        i = self.start
        while (i < self.stop) if self.step > 0 else (i > self.stop):
            yield i
            i = i + self.step
    def __len__(self): return sum(1 for _ in self)
    def contains(self, x):
        import z3
        x = x.t if isinstance(x, SymInt) else x
        a = self.start.t if isinstance(self.start, SymInt) else self.start
        b = self.stop.t if isinstance(self.stop, SymInt) else self.stop
        if self.step == 1: return z3.And(x >= a, x < b) if not all(isinstance(v, int) for v in (x, a, b)) else a <= x < b
        return x in range(int(self.start), int(self.stop), self.step)
    def __contains__(self, x): return tf(self.contains(x))

# builtins with a symbolic meaning
def _b_isinstance(x, cls):
    if type(x) is SSet: return isinstance(set(), cls)
    if isinstance(x, Sym):
        cl = cls if isinstance(cls, tuple) else (cls,)
        if isinstance(x, SymStr): ts = (str, object)
        elif isinstance(x, SymBool): ts = (bool, int, object)
        else: ts = (int, object)
        for c in cl:
            if isinstance(c, types.UnionType):
                if _b_isinstance(x, c.__args__): return True
            elif c in ts: return True
            elif c is type(x): return True
            elif getattr(c, '__module__', '') == 'collections.abc' and isinstance('' if isinstance(x, SymStr) else 0, c): return True
        return False
    return isinstance(x, cls)
def _b_str(x='', *a):
    if isinstance(x, Sym): return strs.toStr(x)
    if hasSym(x): return strs.reprAny(x)
    return str(x, *a) if a else str(x)
def _b_int(x=0, *a):
    if isinstance(x, SymStr): return strs.symToInt(x, *a)
    if isinstance(x, SymInt): return x
    if isinstance(x, SymBool): return x._i()
    return int(x, *a)
def _b_len(x): return len(x)
def _b_bool(x=False): return bool(x)
def _b_type(x, *a):
    if a: return type(x, *a)
    if isinstance(x, SymStr): return str
    if isinstance(x, SymInt): return int
    if isinstance(x, SymBool): return bool
    if type(x) is SDict: return dict
    if type(x) is SSet: return set
    return type(x)
def _b_ord(x):
    if isinstance(x, SymStr):
        if len(x) != 1: raise TypeError('ord() expected a character, but string of length %d found' % len(x))
        return ord(x.e[0]) if type(x.e[0]) is str else mkInt(x.e[0].t)
    return ord(x)
def _b_chr(x):
    if isinstance(x, SymInt): return SymStr([strs.Ch(x.t, None)])
    return chr(x)
def _b_range(*a):
    if any(isinstance(x, Sym) for x in a): return SymRange(*a)
    return range(*a)
def _b_repr(x): return strs.reprAny(x) if hasSym(x) else repr(x)
def _b_format(x, spec=''): return strs.formatOne(x, spec)
def _b_float(x=0.0): return float(realiseStr(x)) if isinstance(x, SymStr) else float(x)
def _b_list(x=()): return list(x)
def _b_abs(x): return abs(x)
def _b_print(*a, **k): return None
def _b_hash(x): return hash(deepRealise(x))
def _b_set(x=()):
    if isinstance(x, (str, dict)) and not isinstance(x, Sym) and type(x) is not SDict: return set(x)
    L = list(x)
    return SSet(L) if not L or any(hasSym(y) for y in L) else set(L)
def _b_frozenset(x=()): return frozenset(_hk(y) for y in x)
def _hk(y): return deepRealise(y) if hasSym(y) else y
def _b_dict(*a, **k): return dict(*a, **k) if a or k or not E.active else SDict()
def _pass(f):
    return lambda *a, **k: f(*a, **k)

BUILTINS = {isinstance: _b_isinstance, str: _b_str, int: _b_int, type: _b_type, ord: _b_ord, chr: _b_chr, range: _b_range,
            repr: _b_repr, format: _b_format, float: _b_float, print: _b_print, hash: _b_hash, set: _b_set, frozenset: _b_frozenset}
PASS = {len, bool, list, tuple, dict, enumerate, zip, map, filter, reversed, iter, next, sorted, min, max, sum, any, all, abs, divmod,
        getattr, setattr, hasattr, callable, id, issubclass, delattr, object, property, super, slice, Exception}
RE_FUNCS = {getattr(re, n): n for n in ('match', 'fullmatch', 'search', 'finditer', 'findall', 'split', 'sub', 'subn')}

def _isInstrumented(f):
    g = getattr(f, '__globals__', None)
    if g is None:
        g = getattr(getattr(f, '__func__', None), '__globals__', None)
    if g is not None:
        n = g.get('__name__', '')
        return n.split('.')[0] in INSTR_PREFIXES or n.startswith('sx.')
    return False

CONTAINER_PASS = {'append', 'extend', 'insert', 'pop', 'remove', 'index', 'count', 'reverse', 'sort', 'copy', 'clear', 'values', 'items', 'keys', 'update', 'setdefault', 'get', 'popitem', 'appendleft', 'popleft', 'rotate', 'extendleft', '__getitem__', '__setitem__'}

OVERRIDES = {}    # function -> replacement (environment stubs)
VFS = None
VFS_OWNER = None

def _anySym(args, kw):
    for a in args:
        if isinstance(a, Sym): return True
        t = type(a)
        if (t in (list, tuple, dict, set) or t is SDict or t is SSet) and hasSym(a, 3): return True
    for a in kw.values():
        if hasSym(a, 3): return True
    return False

def _sx_call(f, /, *args, **kw):
    if not E.active: return f(*args, **kw)
    tp = type(f)
    if tp is types.FunctionType:
        if f.__globals__.get('__name__', '').split('.')[0] in INSTR_PREFIXES:
            return f(*args, **kw)
        if f in RE_FUNCS and any(isinstance(a, SymStr) for a in args):
            r = regex.moduleFunction(RE_FUNCS[f], args, dict(kw))
            if r is not NotImplemented: return r
        if f in OVERRIDES: return OVERRIDES[f](*args, **kw)
        if f.__globals__.get('__name__', '').startswith('sx.'): return f(*args, **kw)
        return _external(f, args, kw)
    if tp is types.MethodType:
        if _isInstrumented(f): return f(*args, **kw)
        fn = f.__func__
        if isinstance(f.__self__, (Sym, SDict, SSet, regex.SymMatch, SymRange)): return f(*args, **kw)
        if fn in OVERRIDES: return OVERRIDES[fn](f.__self__, *args, **kw)
        return _external(f, args, kw)
    if isinstance(f, types.BuiltinFunctionType) or tp is types.MethodWrapperType:
        s = f.__self__
        if s is None or isinstance(s, types.ModuleType):
            h = BUILTINS.get(f)
            if h is not None: return h(*args, **kw)
            if f in PASS: return _passcall(f, args, kw)
            if f in OVERRIDES: return OVERRIDES[f](*args, **kw)
            return _external(f, args, kw)
        return _boundBuiltin(f, s, args, kw)
    if isinstance(f, type):
        h = BUILTINS.get(f)
        if h is not None: return h(*args, **kw)
        if f in OVERRIDES: return OVERRIDES[f](*args, **kw)
        if f in PASS: return _passcall(f, args, kw)
        if f.__module__.split('.')[0] in INSTR_PREFIXES: return f(*args, **kw)
        if issubclass(f, BaseException): return f(*args, **kw)
        if _anySym(args, kw):
            nm = f.__name__
            if nm in ('deque', 'OrderedDict', 'SimpleNamespace', 'partial') or hasattr(f, '_fields'): return f(*args, **kw)
            if nm == 'defaultdict': return f(*args, **kw)
            if nm == 'Counter': return f([_hk(y) for y in args[0]]) if args else f()
            return f(*deepRealise(tuple(args)), **deepRealise(kw))
        return f(*args, **kw)
    if tp is types.MethodDescriptorType:      # str.isdigit, str.lower ... called unbound
        if args and isinstance(args[0], SymStr): return getattr(args[0], f.__name__)(*args[1:], **kw)
        if _anySym(args, kw) and args and isinstance(args[0], (str, dict, list, set)):
            return _sx_call(getattr(args[0], f.__name__), *args[1:], **kw)
        return f(*args, **kw)
    return f(*args, **kw)

def _passcall(f, args, kw):
    if f is tuple or f is list:
        return f(*args)
    if f in (min, max) and not kw and _anySym(args, {}):
        import z3
        items = list(args[0]) if len(args) == 1 else list(args)
        if items and all(isinstance(x, (int, SymInt)) for x in items):
            r = items[0]
            for x in items[1:]:
                c = (x < r) if f is min else (x > r)
                if isinstance(c, SymBool):
                    a = x.t if isinstance(x, SymInt) else z3.IntVal(x)
                    b = r.t if isinstance(r, SymInt) else z3.IntVal(r)
                    r = mkInt(z3.If(c.t, a, b))
                elif c: r = x
            return r
    if f is sum and len(args) == 1: 
        tot = 0
        for x in args[0]: tot = tot + x
        return tot
    if f is sorted or f in (min, max, map, filter):
        return f(*args, **kw)
    if f is dict and not args and not kw: return SDict()
    if f is dict and len(args) == 1 and type(args[0]) is SDict and not kw: return SDict(args[0])
    if f is dict and args and _anySym(args, {}):
        a = args[0]
        if isinstance(a, dict): return dict(a, **kw)
        return dict([(_hk(k), v) for k, v in a], **kw)
    return f(*args, **kw)

def _external(f, args, kw):
    if _anySym(args, kw):
        nm = getattr(f, '__name__', '')
        if nm in ('deepcopy', 'copy') and getattr(f, '__module__', '') == 'copy':
            return _copyvalue(args[0], nm == 'deepcopy')
        return f(*deepRealise(tuple(args)), **deepRealise(kw))
    return f(*args, **kw)

def _copyvalue(x, deep):
    if isinstance(x, Sym): return x
    if not deep:
        import copy
        return copy.copy(x)
    if type(x) in (list, tuple, set): return type(x)(_copyvalue(y, True) for y in x)
    if type(x) is SSet: return SSet(x)
    if type(x) is SDict: return SDict([(k, _copyvalue(v, True)) for k, v in x.items()])
    if type(x) is dict: return {k: _copyvalue(v, True) for k, v in x.items()}
    import copy
    return copy.deepcopy(x)

def _boundBuiltin(f, s, args, kw):
    name = f.__name__
    if isinstance(s, str):
        if name == 'join':
            if not args: return f(*args)
            it = args[0]
            it = list(it)
            if isinstance(it, list) and any(isinstance(x, SymStr) for x in it): return strs.joinStr(s, it)
            return s.join(it)
        if _anySym(args, kw):
            if name == 'format': return strs.formatStr(s, args, kw)
            return getattr(SymStr(list(s)), name)(*args, **kw)
        if name == 'format':
            return f(*args, **kw)
        return f(*args, **kw)
    if isinstance(s, re.Pattern):
        if any(isinstance(a, SymStr) for a in args):
            r = regex.patternMethod(s, name, args, kw)
            if r is not NotImplemented: return r
            return f(*deepRealise(tuple(args)), **deepRealise(kw))
        if name in ('sub', 'subn') and args and callable(args[0]):
            return f(*args, **kw)
        return f(*args, **kw)
    if isinstance(s, dict):
        if args and hasSym(args[0]):
            k = args[0]
            if name in ('get', 'pop', '__contains__', '__getitem__'):
                t = _sx_in_term(k, s)
                if name == '__contains__': return mkBool(t)
                if not tf(t):
                    if name == '__getitem__': return _sx_get(s, k)
                    if len(args) > 1: return args[1]
                    if name == 'get': return None
                    raise KeyError(k)
                return f(deepRealise(k), *args[1:])
            if name in ('setdefault', '__setitem__'): return f(deepRealise(k), *args[1:])
        return f(*args, **kw)
    if isinstance(s, (set, frozenset)):
        if args and hasSym(args[0]):
            if name == '__contains__': return mkBool(_sx_in_term(args[0], s))
            return f(*deepRealise(tuple(args)), **kw)
        return f(*args, **kw)
    if isinstance(s, list):
        if name in ('index', 'count', 'remove') and (isinstance(args[0], Sym) or hasSym(s)):
            if name == 'count': return sum(1 for y in s if tf(eqTerm(args[0], y)))
            for i, y in enumerate(s):
                if (name == 'remove' or len(args) < 2 or i >= args[1]) and tf(eqTerm(args[0], y)):
                    if name == 'index': return i
                    del s[i]
                    return None
            raise ValueError(repr(name))
        return f(*args, **kw)
    if isinstance(s, tuple):
        if name == 'index' and (isinstance(args[0], Sym) or hasSym(s)):
            for i, y in enumerate(s):
                if tf(eqTerm(args[0], y)): return i
            raise ValueError('tuple.index(x): x not in tuple')
        if name == 'count': return sum(1 for y in s if tf(eqTerm(args[0], y)))
        return f(*args, **kw)
    if _anySym(args, kw) and name not in CONTAINER_PASS:
        if isinstance(s, type) and name in ('__new__', 'fromkeys', '_make'): return f(*args, **kw)
        return f(*deepRealise(tuple(args)), **deepRealise(kw))
    return f(*args, **kw)


def install(roots):
    """roots: {'BibleOrgSys': '/repo', 'harness': '/verif'}"""
    b = builtins.__dict__
    b['_sx_call'] = _sx_call; b['_sx_in'] = _sx_in; b['_sx_notin'] = _sx_notin; b['_sx_fstr'] = _sx_fstr
    b['_sx_mod'] = _sx_mod; b['_sx_key'] = _sx_key; b['_sx_get'] = _sx_get; b['_sx_newdict'] = _sx_newdict; b['_sx_mkset'] = _sx_mkset; b['_sx_enter'] = _sx_enter
    b['_sx_log'] = _sx_log; b['_sx_Control'] = SxControl
    sys.meta_path.insert(0, Finder(roots))
