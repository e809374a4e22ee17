"""P24: comparing two files says whether they are the same, apart from what the comparison is to ignore."""
import os
from xml.sax.saxutils import escape, quoteattr
from harness import common
PROPERTY = 'P24'
ASSUMPTIONS = ['readable UTF-8 files; in symbolic runs XML files are given to the comparison as parsed element trees, in replays as files']
OUTSIDE = "what is printed; lines with ' <verse eid'; namespaces, comments and processing instructions in XML"
BOM = '\ufeff'

def setup():
    global G
    common.preload()
    from BibleOrgSys import BibleOrgSysGlobals as G_
    G = G_

def call(sx, fn, names, folders, printFlag, exitCount, **k):
    f1, f2 = sx.file(names[0][0], names[0][1]), sx.file(names[1][0], names[1][1])
    return call2(sx, fn, f1, f2, folders, printFlag, exitCount, **k)
def call2(sx, fn, f1, f2, folders, printFlag, exitCount, **k):
    if exitCount is not None: k['exitCount'] = exitCount
    if printFlag is not None: k['printFlag'] = printFlag
    if folders:
        (d1, n1), (d2, n2) = os.path.split(f1), os.path.split(f2)
        return sx.attempt(fn, n1, n2, d1, d2, **k)
    return sx.attempt(fn, f1, f2, **k)

def lines(sx, p, lens, dom, bom):
    ls = [sx.string('%s%d' % (p, i), 0, n, dom) for i, n in enumerate(lens)]
    if BOM in dom and ls: sx.assume(sx.no(sx.same(ls[0][:1], BOM)))
    b = sx.bool(p + 'bom') if bom and ls else False
    return ls, ([BOM + ls[0]] + ls[1:] if b else ls)

def plain(sx, l1, l2, dom, bom, folders, printFlag, exitCount):
    a, fa = lines(sx, 'a', l1, dom, bom); b, fb = lines(sx, 'b', l2, dom, bom)
    r = call(sx, G.fileCompare, (('f1', fa), ('f2', fb)), folders, printFlag, exitCount)
    sx.check(r.ok, 'compared')
    want = alike(sx, [x for x in a if x != ''], [x for x in b if x != ''])
    sx.check(sx.same(bool(r.value), bool(want)), 'equal exactly if the lines are the same')

def alike(sx, a, b):
    if len(a) != len(b): return False
    ok = True
    for x, y in zip(a, b): ok = sx.both(ok, sx.same(x, y))
    return ok

LEVELS = ('mt', 'mte', 'imt', 'imte', 'is', 'iq', 'io', 'ili', 'ms', 's', 'li', 'q', 'pi', 'ph')
OTHERS = ('s2', 'q2', 'p', 'mt2', 'c', 'v', 'm', 'r', 'h', 'id', 'ip', 'io2', 'qr', 'sp', 'li3')
def usfm(sx, n, markers, tl, exitCount, folders, ends=True):
    """Lines with markers, where a level one may be written or not, and blanks at the end"""
    A = []; B = []; same = True
    for i in range(n):
        ma = sx.choice('m%d' % i, markers); ka = sx.choice('same%d' % i, (True, False)); mb = ma if ka else sx.choice('n%d' % i, markers)
        ta = sx.string('t%d' % i, 1 if ma in ('c', 'v') else 0, tl, 'a1 '); tb = sx.string('u%d' % i, 1 if mb in ('c', 'v') else 0, tl, 'a1 ')
        if ma == 'v': sx.assume(sx.no(ta[:1] == ' '))
        if mb == 'v': sx.assume(sx.no(tb[:1] == ' '))
        if exitCount is None and ka: tb = ta
        la = ma + ('1' if ma in LEVELS and sx.bool('l%d' % i) else ''); lb = mb + ('1' if mb in LEVELS and sx.bool('k%d' % i) else '')
        A.append('\\' + la + (' ' + ta if ta != '' else '') + (sx.oneof('e%d' % i, ['', '  ']) if ends else '')); B.append('\\' + lb + (' ' + tb if tb != '' else '') + (sx.oneof('f%d' % i, ['', ' ']) if ends else ''))
        if ma != mb: same = False
        else: same = sx.both(same, sx.same(strip(sx, ta), strip(sx, tb)))
        if sx.choice('gap%d' % i, (False, True)) if i == 0 else False: B.append('')
    r = call(sx, G.fileCompareUSFM, (('f1', A), ('f2', B)), folders, None, exitCount)
    sx.check(r.ok, 'compared')
    sx.check(sx.same(bool(r.value), bool(same)), 'equal exactly if the lines are the same but for unnumbered levels and final spaces')
def strip(sx, t):
    while len(t) and t[-1] == ' ': t = t[:-1]
    return t

def usfmText(sx, l1, l2, dom, bom):
    a, fa = lines(sx, 'a', l1, dom, bom); b, fb = lines(sx, 'b', l2, dom, bom)
    r = call(sx, G.fileCompareUSFM, (('f1', fa), ('f2', fb)), False, None, None)
    sx.check(r.ok, 'compared')
    want = alike(sx, [strip(sx, x) for x in a if x != ''], [strip(sx, x) for x in b if x != ''])
    sx.check(sx.same(bool(r.value), bool(want)), 'equal exactly if the lines are the same but for final spaces')

def countMatters(sx, which, n, extra):
    """A file is never equal to the beginning of itself"""
    a = ['\\p a%d' % i for i in range(n)]; t = sx.string('t', 1, 3, 'a\\ ')
    if which: args = (('f1', a + [t] * extra), ('f2', a))
    else: args = (('f1', a), ('f2', a + [t] * extra))
    for fn in (G.fileCompare, G.fileCompareUSFM):
        r = call(sx, fn, args, False, None, sx.int('x' + fn.__name__, 0, 2))
        sx.check(r.ok and not r.value, 'different')

def manyDiffs(sx, n, exitCount):
    """Stopping early does not make files equal"""
    t = sx.string('t', 1, 1, 'ab')
    a = ['\\p b'] * n; b = ['\\p ' + t] * n
    for fn in (G.fileCompare, G.fileCompareUSFM):
        r = call(sx, fn, (('f1', a), ('f2', b)), False, sx.bool('p' + fn.__name__), exitCount)
        sx.check(r.ok, 'compared')
        sx.check(sx.same(bool(r.value), bool(t == 'b')), 'equal exactly if the lines are the same')

def missing(sx):
    f = sx.file('f1', ['\\p a'])
    which = sx.choice('w', (0, 1, 2)); nope = f + '.nope'
    names = ((nope, f), (f, nope), (nope, nope + '2'))[which]
    for fn in (G.fileCompare, G.fileCompareUSFM, G.fileCompareXML):
        r = sx.attempt(fn, *names)
        sx.check(r.ok and r.value is None, 'no answer if there is no such file')

class Tree:
    """An element tree that a replay writes to a file"""
    def __init__(self, tag, attrs, text, tail, kids): self.tag = tag; self.attrs = attrs; self.text = text; self.tail = tail; self.kids = kids
    def element(self):
        from xml.etree.ElementTree import Element
        e = FakeElement(self.tag, self.attrs, self.text if self.text != '' else None, self.tail if self.tail != '' else None)
        e.kids = [k.element() for k in self.kids]
        return e
    def xml(self):
        body = escape(self.text) + ''.join(k.xml() for k in self.kids)
        return '<' + self.tag + ''.join(' %s=%s' % (k, quoteattr(v)) for k, v in self.attrs) + '>' + body + '</' + self.tag + '>' + escape(self.tail)
class FakeElement:
    def __init__(self, tag, attrs, text, tail): self.tag = tag; self.a = attrs; self.text = text; self.tail = tail; self.kids = []
    def items(self): return list(self.a)
    @property
    def attrib(self): return dict(self.a)
    def keys(self): return [k for k, v in self.a]
    def get(self, k, d=None):
        for n, v in self.a:
            if n == k: return v
        return d
    def __len__(self): return len(self.kids)
    def __getitem__(self, i): return self.kids[i]
    def __iter__(self): return iter(self.kids)
    def iter(self, tag=None):
        yield self
        for k in self.kids: yield from k.iter()

def xmlCall(sx, t1, t2, folders, exitCount, **k):
    if type(sx).__name__ == 'ConcCtx':
        f1, f2 = sx.file('x1.xml', t1.xml().split('\n'), False), sx.file('x2.xml', t2.xml().split('\n'), False)
        return call2(sx, G.fileCompareXML, f1, f2, folders, None, exitCount, **k)
    import xml.etree.ElementTree as ET
    f1, f2 = sx.file('x1.xml', []), sx.file('x2.xml', [])
    real = ET.ElementTree, ET.parse
    class FakeTree:
        def __init__(self, element=None, file=None):
            self.root = element
            if file is not None: self.parse(file)
        def parse(self, source, parser=None):
            self.root = {os.path.basename(f1): t1, os.path.basename(f2): t2}[os.path.basename(str(source))].element(); return self.root
        def getroot(self): return self.root
    ET.ElementTree = FakeTree; ET.parse = lambda source, parser=None: FakeTree(None, source)
    try: return call2(sx, G.fileCompareXML, f1, f2, folders, None, exitCount, **k)
    finally: ET.ElementTree, ET.parse = real

def blankish(sx, a, b, ignore):
    if not ignore: return sx.same(a, b)
    return sx.same(a.strip(' \n\t'), b.strip(' \n\t'))
def node(sx, p, shape, what, dom, tl):
    """A tree of the given shape (list of shapes) where 'what' says which parts can be anything"""
    tag = sx.oneof(p + 'tag', ['a', 'b']) if 'tag' in what else 'a'
    attrs = []
    if 'attrs' in what:
        for n in ('x', 'y'):
            if sx.bool(p + n): attrs.append((n, sx.string(p + 'v' + n, 0, tl, 'ab')))
        if len(attrs) == 2 and sx.bool(p + 'swap'): attrs.reverse()
    text = sx.string(p + 'text', 0, tl, dom) if 'text' in what else ''
    tail = sx.string(p + 'tail', 0, tl, dom) if 'tail' in what and '.' in p else ''
    return Tree(tag, attrs, text, tail, [node(sx, p + '.%d' % i, s, what, dom, tl) for i, s in enumerate(shape)])
def equal(sx, a, b, ignore):
    ok = sx.same(a.tag, b.tag)
    if len(a.attrs) != len(b.attrs) or len(a.kids) != len(b.kids): return False
    for n, v in a.attrs:
        w = [x for m, x in b.attrs if m == n]
        if not w: return False
        ok = sx.both(ok, sx.same(v, w[0]))
    ok = sx.both(ok, blankish(sx, a.text, b.text, ignore), blankish(sx, a.tail, b.tail, ignore))
    for x, y in zip(a.kids, b.kids): ok = sx.both(ok, equal(sx, x, y, ignore))
    return ok
def trees(sx, s1, s2, what, dom, tl, ignore, exitCount):
    a, b = node(sx, 'p', s1, what, dom, tl), node(sx, 'q', s2, what, dom, tl)
    r = xmlCall(sx, a, b, False, exitCount, **({} if ignore is None else dict(ignoreWhitespace=ignore)))
    sx.check(r.ok, 'compared')
    sx.check(sx.same(bool(r.value), bool(equal(sx, a, b, ignore is not False))), 'equal exactly if the elements are the same')

def cases(tier):
    q = tier == 'quick'; L = []
    D = 'a \\1'
    sizes = [((2, 1), (2, 1)), ((1, 1, 1), (2, 1)), ((2,), (2,)), ((1, 1), (1, 1, 1)), ((), (1,))] if q else [((3, 2), (3, 2)), ((2, 1, 1), (2, 2, 1)), ((4,), (4,)), ((1, 1, 1, 1), (1, 1, 1))]
    for i, (a, b) in enumerate(sizes):
        L.append(('plain %s %s' % (a, b), plain, dict(l1=a, l2=b, dom=D, bom=i % 2 == 0, folders=i % 2 == 1, printFlag=None if i % 2 else False, exitCount=None if i % 3 else 0)))
        L.append(('usfm text %s %s' % (a, b), usfmText, dict(l1=a, l2=b, dom='a p', bom=i % 2 == 0)))
    L.append(('plain later BOM', plain, dict(l1=(1, 1), l2=(1, 1), dom='a' + BOM, bom=True, folders=False, printFlag=None, exitCount=None)))
    L.append(('usfm text later BOM', usfmText, dict(l1=(1, 1), l2=(1, 1), dom='a' + BOM, bom=True)))
    for i, m in enumerate(LEVELS):
        o = [OTHERS[i], OTHERS[(i + 5) % len(OTHERS)]]
        L.append(('usfm %s' % m, usfm, dict(n=1, markers=[m] + o, tl=1 if q else 2, exitCount=None, folders=bool(i % 2))))
        if not q: L.append(('usfm two %s' % m, usfm, dict(n=2, markers=[m, LEVELS[i - 1]], tl=1 if m == 's' else 0, exitCount=None, folders=bool(i % 2), ends=False)))
    L.append(('usfm texts', usfm, dict(n=1, markers=['s', 'v', 'p'], tl=2 if q else 3, exitCount=0, folders=False)))
    if q: L.append(('usfm two', usfm, dict(n=2, markers=['s', 'p'], tl=0, exitCount=None, folders=False, ends=False)))
    for w in (False, True):
        for n in (0, 1, 2): L.append(('count %s %d' % (w, n), countMatters, dict(which=w, n=n, extra=1 + n % 2)))
    for n, x in ((1, 0), (2, 1), (3, 1), (3, 5), (12, None)): L.append(('many %d %s' % (n, x), manyDiffs, dict(n=n, exitCount=x)))
    L.append(('missing', missing, {}))
    leaf, one, two = [], [[]], [[], []]
    for ign in (None, False, True):
        for dom in ('a ', 'a\n'):
            L.append(('xml text %s %r' % (ign, dom), trees, dict(s1=leaf, s2=leaf, what=('text',), dom=dom, tl=2 if q else 4, ignore=ign, exitCount=None)))
            L.append(('xml tail %s %r' % (ign, dom), trees, dict(s1=one, s2=one, what=('tail',), dom=dom, tl=2 if q else 4, ignore=ign, exitCount=None if ign else 0)))
        L.append(('xml attrs %s' % ign, trees, dict(s1=leaf, s2=leaf, what=('tag', 'attrs'), dom='a', tl=1, ignore=ign, exitCount=None)))
        L.append(('xml nested %s' % ign, trees, dict(s1=two, s2=two, what=('tag', 'tail'), dom='a ', tl=1, ignore=ign, exitCount=0)))
    for a, b in ((leaf, one), (one, two), ([[[]]], one), ([[[]]], two), ([[], [[]]], [[[]], []]), (two, leaf)):
        L.append(('xml shapes %s %s' % (a, b), trees, dict(s1=a, s2=b, what=('tag',), dom='a', tl=0, ignore=None, exitCount=None)))
    L.append(('xml deep', trees, dict(s1=[[[[]]]] if q else [[[[]]], []], s2=[[[[]]]] if q else [[[[]]], []], what=('text',), dom='a' if q else 'a ', tl=1, ignore=None, exitCount=10)))
    return L
