"""P26: exporting a Bible to USFM."""
from harness import common, bookmaker
PROPERTY = 'P26'
ASSUMPTIONS = ['the Bible was loaded from lines with known markers', 'the zip and tar files made besides (stubbed out) hold the files written']
OUTSIDE = 'outlines without a heading (an empty one is written); books which have no id line; ESFM files; Strong\'s numbers in str markers (left out on purpose); white space at the end of lines'
T = [(0x21, 0x21), (0x24, 0x29), (0x2b, 0x3b), (0x3f, 0x5b), (0x5d, 0x60), (0x61, 0x7a), (0xe9, 0xe9), (0x2019, 0x2019)]

class _Zip:
    def __init__(self, *a, **k): pass
    def write(self, *a, **k): pass
    def writestr(self, *a, **k): pass
    def add(self, *a, **k): pass
    def close(self): pass
    def __enter__(self): return self
    def __exit__(self, *a): return False

def setupWriter():
    global BW, BOS, BibleReferenceList
    bookmaker.setup()
    from types import SimpleNamespace
    from BibleOrgSys import BibleWriter as BW
    from BibleOrgSys.Reference.BibleOrganisationalSystems import BibleOrganisationalSystem
    BW.zipfile = SimpleNamespace(ZipFile=_Zip, ZIP_DEFLATED=8)
    BW.tarfile = SimpleNamespace(open=lambda *a, **k: _Zip())
    BOS = BibleOrganisationalSystem('GENERIC')
    from BibleOrgSys.Reference.BibleReferences import BibleReferenceList
    return BW

def setup():
    global UB, Bible
    setupWriter()
    from BibleOrgSys.Formats import USFMBibleBook as UB
    from BibleOrgSys.Bible import Bible

def writer(books, kind='USFM3'):
    B = BW.BibleWriter()
    B.name = 'Test'; B.objectNameString = 'Test'; B.objectTypeString = kind; B.abbreviation = 'TST'; B.workName = 'T'; B.projectName = 'T'
    B.genericBOS = BOS; B.doneSetupGeneric = True
    for b in books: B.books[b.BBB] = b; B.availableBBBs.add(b.BBB)
    B.genericBRL = BibleReferenceList(BOS, BibleObject=B)
    return B

NAMES = {'JNA': '32JON', 'GEN': '01GEN', 'MAT': '41MAT', 'JDE': '66JUD', 'PSA': '19PSA'}

class Lines(bookmaker.Maker):
    """raw: the lines of the source; out: the lines of the USFM file to be written (with what the reader changes)"""
    def __init__(self, sx): super().__init__(sx); self.out = []
    def put(self, m, t, outm=None, outt=None):
        self.lines.append((m, t)); self.out.append(((outm or m), t if outt is None else outt))
    def text(self, lo=2, hi=2, dom=T): return super().text(lo, hi, dom)
    def add(self, k):
        t = self.text
        if k == 'c': self.c += 1; self.v = 0; self.put('c', str(self.c))
        elif k == 'v': self.v += 1; self.put('v', '%d %s' % (self.v, t()))
        elif k == 'v-': self.v += 2; self.put('v', '%d-%d %s' % (self.v - 1, self.v, t()))
        elif k == 'v0': self.v += 1; self.put('v', str(self.v))
        elif k == 'vn': self.v += 1; self.put('v', '%d %s\\f + \\fr 1:1 \\ft %s\\f*%s' % (self.v, t(), t(), t(1, 1)))
        elif k == 'vx': self.v += 1; self.put('v', '%d %s\\x - \\xo 1:1 \\xt %s\\x*' % (self.v, t(), t()))
        elif k == 'vch': self.v += 1; self.put('v', '%d %s \\add %s\\add* %s' % (self.v, t(1, 1), t(), t(1, 1)))
        elif k == 'vst': self.v += 1; self.put('v', '%d \\nd %s\\nd* %s' % (self.v, t(), t(1, 1)))
        elif k == 'vw': self.v += 1; self.put('v', '%d \\w %s|lemma="%s"\\w*%s' % (self.v, t(), t(1, 1, 'aG1'), t(1, 1)))
        elif k == 'vstr':
            self.v += 1; a, b, c = t(), t(), t(1, 1)
            self.put('v', '%d %s\\str G1\\str* %s\\str H22\\str* %s' % (self.v, a, b, c), outt='%d %s %s %s' % (self.v, a, b, c))
        elif k == 'vfig': self.v += 1; self.put('v', '%d %s\\fig %s|src="a.jpg" size="col" ref="1:1"\\fig*%s' % (self.v, t(), t(), t(1, 1)))
        elif k == 'vnest': self.v += 1; self.put('v', '%d \\wj %s \\+nd %s\\+nd* %s\\wj*' % (self.v, t(), t(), t(1, 1)))
        elif k == 'vmany': self.v += 1; self.put('v', '%d %s\\f + \\ft %s\\f*%s\\x - \\xt %s\\x* %s' % (self.v, t(1, 1), t(1, 1), t(1, 1), t(1, 1), t(1, 1)))
        elif k == 'vp': self.v += 1; p = t(1, 2, 'ab1'); self.put('v', '%d \\vp %s\\vp* %s' % (self.v, p, t()))
        elif k == 'q': x = t(); self.put('q', x, 'q1')
        elif k == 's': x = t(); self.put('s', x, 's1')
        elif k == 'iot': self.put('iot', t()); self.put('io1', t())
        elif k in ('b', 'nb'): self.put(k, '')
        elif k in bookmaker.HEADS or k in bookmaker.INTRO and k not in ('ie', 'iq1+') or k in ('cl', 'cp', 'cd', 'id', 'usfm', 'ide'): self.put(k, self.text())
        elif k == 'ie': self.put('ie', '')
        elif k == 'head\\': self.put('s1', '%s\\f + \\ft %s\\f*' % (t(), t()))
        elif k == 'p\\': self.put('p', '\\add %s\\add*' % t())
        elif k[-1] == '+': self.put(k[:-1], t())
        else: self.put(k, '')

def split(sx, text):
    out = []
    text = text.replace('\r\n', '\n')
    while True:
        i = text.find('\n')
        if i < 0: break
        out.append(text[:i]); text = text[i + 1:]
    if len(text): out.append(text)
    return out

def export(sx, B, method, folder=None, **kw):
    sx.outPath('unused')
    d = folder or sx.scratchDir()
    q = sx.attempt(getattr(B, method), d + '/', **kw)
    sx.check(q.ok and q.value is True, 'the export succeeds')
    return d

def compare(sx, got, want, usfm3):
    if usfm3 and not any(m == 'usfm' for m, t in want):
        i = 0
        while i < len(want) and want[i][0] == 'id': i += 1
        want = want[:i] + [('usfm', '3.0')] + want[i:]
    sx.check(len(got) == len(want), 'a line for every line')
    for g, (m, t) in zip(got, want):
        w = '\\' + m + (' ' + t if len(t) else '')
        sx.check(sx.either(g == w, g == w + ' '), 'the line is written as it was read')

def lines(sx, kinds, method, BBB='JNA', reload=False):
    L = Lines(sx)
    L.put('id', BBB + ' test')
    for i, k in enumerate(kinds): L.add(sx.choice('k%d' % i, k) if isinstance(k, tuple) else k)
    b = bookmaker.book(L.lines, BBB)
    before = [(e.getMarker(), e.getFullText()) for e in bookmaker.entries(b)]
    d = export(sx, writer([b]), method)
    f = '%s/%sBibleWriter.usfm' % (d, NAMES[BBB])
    text = sx.readBack(f)
    compare(sx, split(sx, text), L.out, method == 'toUSFM3')
    sx.check([(e.getMarker(), e.getFullText()) for e in bookmaker.entries(b)] == before, 'the Bible is not changed by it')
    if reload:
        C = Bible(); C.abbreviation = C.workName = 'T'
        k = UB.USFMBibleBook(C, BBB)
        q = sx.attempt(k.load, f)
        sx.check(q.ok, 'the file can be loaded')
        k.processLines()
        after = [e for e in bookmaker.entries(k) if e.getMarker() != 'usfm']
        sx.check(len(after) == len(before), 'as many entries when loaded again')
        for e, (m, t) in zip(after, before):
            sx.check(e.getMarker() == m, 'the same markers when loaded again')
            sx.check(sx.same(e.getFullText(), t), 'the same texts when loaded again')

def bridges(sx, kinds, method):
    """Removing verse bridges writes each verse of a bridge."""
    L = Lines(sx); L.put('id', 'JNA test'); L.put('c', '1'); L.put('p', ''); want = [('c', '1'), ('p', '')]; v = 0; c = 1; todo = []
    for i, k in enumerate(kinds):
        k = sx.choice('k%d' % i, k) if isinstance(k, tuple) else k
        if k in ('c', 'v', 'bridge'): want += todo; todo = []
        if k == 'c': c += 1; v = 0; L.put('c', str(c)); want.append(('c', str(c)))
        elif k == 'v': v += 1; t = L.text(); L.put('v', '%d %s' % (v, t)); want.append(('v', '%d %s' % (v, t)))
        elif k == 'bridge':
            n = sx.choice('n%d' % i, (2, 3)); t = L.text()
            L.put('v', '%d-%d %s' % (v + 1, v + n, t))
            want.append(('v', '%d %s' % (v + 1, t))); todo = [('v', str(v + j)) for j in range(2, n + 1)]; v += n
        elif k == 'p+': t = L.text(); L.put('p', t); want.append(('p', t))
        elif k == 'q1': L.put('q1', ''); want.append(('q1', ''))
    want += todo
    d = export(sx, writer([bookmaker.book(L.lines)]), method, removeVerseBridges=True)
    text = sx.readBack('%s/%sBibleWriter.usfm' % (d, NAMES['JNA']))
    compare(sx, split(sx, text), [('id', 'JNA test')] + want, method == 'toUSFM3')

def several(sx, method, BBBs):
    """Each book has its file."""
    books = []; outs = []
    for i, BBB in enumerate(BBBs):
        L = Lines(sx); L.n = 10 * i; L.put('id', BBB + ' test')
        if sx.bool('usfm%d' % i): L.put('usfm', '3.0')
        L.put('h', L.text()); L.put('c', '1'); L.put('p', ''); L.add('v')
        books.append(bookmaker.book(L.lines, BBB)); outs.append(L.out)
    d = export(sx, writer(books), method)
    for BBB, out in zip(BBBs, outs):
        text = sx.readBack('%s/%sBibleWriter.usfm' % (d, NAMES[BBB]))
        compare(sx, split(sx, text), out, method == 'toUSFM3')

PRE = ('h', 'toc1', 'mt1', 'ip', 'is1', 'rem', 'iot', 'ili1', 'ie')
VERSES = ('v', 'v-', 'v0', 'vn', 'vx', 'vch', 'vst', 'vw', 'vp', 'vstr', 'vfig', 'vnest', 'vmany')
MID = ('c', 'p', 'p+', 'q', 'q2+', 'b', 's', 'ms1', 'r', 'd', 'sp', 'li1+', 'nb', 'm', 'head\\', 'p\\') + VERSES

def cases(tier):
    out = []
    def a(name, *kinds, **kw):
        for m in ('toUSFM2', 'toUSFM3'): out.append(('%s %s' % (name, m), lines, dict(kinds=kinds, method=m, **kw)))
    a('beginning', PRE, PRE, 'c', 'p', 'v')
    a('verses', 'c', 'p', VERSES, VERSES)
    a('after a verse', 'c', 'p', 'v', MID, VERSES)
    a('two', 'c', 'p', 'v', MID, MID)
    a('chapter', 'c', ('cl', 'cp', 'cd', 's1', 'd'), 'p', 'v', 'c', ('cp', 's1', 'v'), 'v')
    R = [tuple(k for k in X if k != 'vstr') for X in (VERSES, MID)]
    a('loaded again', 'h', 'c', 'p', R[0], R[1], 'v', reload=True)
    for m in ('toUSFM2', 'toUSFM3'):
        K = ('c', 'v', 'bridge', 'en', 'em', 'p+', 'q1')
        out.append(('bridges %s' % m, bridges, dict(kinds=('bridge', K, K), method=m)))
        out.append(('several %s' % m, several, dict(method=m, BBBs=('GEN', 'JNA'))))
    if tier == 'thorough':
        a('T three', 'c', 'p', 'v', MID, MID, MID)
        a('T loaded again', 'c', 'p', 'v', R[1], R[1], 'v', reload=True)
        for m in ('toUSFM2', 'toUSFM3'): out.append(('T several %s' % m, several, dict(method=m, BBBs=('GEN', 'JNA', 'MAT'))))
    return out
