"""Building an internal Bible book from marker/text lines with the real loader code."""
from harness import common

def setup():
    G = common.preload()
    from types import SimpleNamespace
    G.commandLineArguments = SimpleNamespace(export=False)
    from BibleOrgSys.Internals import InternalBibleBook as IBB
    import logging
    return IBB

def book(lines, BBB='JNA', kind='USFM3'):
    from BibleOrgSys.Internals.InternalBibleBook import InternalBibleBook
    b = InternalBibleBook('test', BBB)
    b.objectNameString = 'Test book'
    b.objectTypeString = kind
    for m, t in lines: b.addLine(m, t)
    b.processLines()
    return b

def entries(b):
    return [b._processedLines[i] for i in range(len(b._processedLines))]

PARAS = ('p', 'm', 'q1', 'q2', 'pi1', 'li1', 'li2', 'mi', 'pc', 'pr', 'qr', 'qc', 'qm1')
HEADS = ('s1', 's2', 's3', 'ms1', 'mr', 'sr', 'r', 'd', 'sp', 'sd', 'qa')
TEXT = [(0x21, 0x21), (0x23, 0x3b), (0x3d, 0x3d), (0x3f, 0x5b), (0x5d, 0x7b), (0x7d, 0x7d), (0xc0, 0x17f), (0x391, 0x3a1), (0x3a3, 0x3ff), (0x5d0, 0x5ea), (0x2013, 0x201d)]

class Maker:
    """Builds the raw lines of a book and what should come out of them.
    want: [(marker, text)] in order; the generated entries (nesting, c#, v=) are not in it."""
    def __init__(self, sx): self.sx = sx; self.lines = []; self.want = []; self.c = 0; self.v = 0; self.n = 0; self.where = []
    def text(self, lo=2, hi=2, dom=TEXT):
        self.n += 1
        return self.sx.string('t%d' % self.n, lo, hi, dom)
    def line(self, marker, text, *want):
        self.lines.append((marker, text))
        for w in want: self.want.append(w); self.where.append((self.c, self.v))
    def head(self, marker, text): self.line(marker, text, (marker, text))
    def chapter(self):
        self.c += 1; self.v = 0
        self.line('c', str(self.c), ('c', str(self.c)))
    def verse(self, text=None, number=None):
        self.v += 1
        n = number or str(self.v)
        if text is None: self.line('v', n, ('v', n))
        else: self.line('v', n + ' ' + text, ('v', n), ('v~', text))
    def para(self, marker, text=None):
        if text is None: self.line(marker, '', (marker, ''))
        else: self.line(marker, text, (marker, ''), ('p~', text))
    def step(self, kind):
        """One line of the given kind"""
        if kind == 'c': self.chapter()
        elif kind == 'v': self.verse(self.text())
        elif kind == 'v-': self.verse(self.text(), '%d-%d' % (self.v + 1, self.v + 2)); self.v += 1
        elif kind == 'v0': self.verse()
        elif kind in HEADS: self.head(kind, self.text())
        elif kind in ('b', 'ib', 'nb'): self.line(kind, '', (kind, ''))
        elif kind[-1] == '+': self.para(kind[:-1], self.text())
        else: self.para(kind)

GENERATED = ('headers', 'intro', 'iot', 'ilist', 'chapters', 'list')
def content(es):
    """Without the generated entries"""
    return [e for e in es if e.getMarker() not in ('c#', 'v=') and e.getMarker()[0] != '\u00ac'
            and not (e.getMarker() in GENERATED and e.getOriginalMarker() is None)]
def nesting():
    from BibleOrgSys.Internals.InternalBibleInternals import BOS_NESTING_MARKERS
    from BibleOrgSys.Internals.InternalBibleBook import OUR_HEADING_BLOCK_MARKERS
    return tuple(BOS_NESTING_MARKERS) + tuple(OUR_HEADING_BLOCK_MARKERS)

INTRO = ('h', 'toc1', 'mt1', 'imt1', 'is1', 'ip', 'iot', 'io1', 'ili1', 'ie', 'rem', 'iq1+')
def introLine(m, kind):
    if kind == 'ie': m.line('ie', '', ('ie', ''))
    elif kind == 'iq1+': m.line('iq1', '', ('iq1', ''))
    else: m.head(kind, m.text())

def make(sx, kinds, n, first=('p', 'v'), last=(), intro=0, BBB='JNA', explicit=True):
    """A book: id, `intro` introduction lines of any kind, chapter one, the lines `first`, n lines of any of `kinds`, the lines `last`."""
    m = Maker(sx)
    m.head('id', BBB + ' test')
    for i in range(intro): introLine(m, sx.choice('i%d' % i, INTRO))
    if explicit: m.chapter()
    for k in first: m.step(k)
    for i in range(n): m.step(sx.choice('k%d' % i, kinds))
    for k in last: m.step(k)
    return m

BASIC = ['c', 'v', 'p', 'q1+', 's1', 'ms1', 'b', 'li1']
WIDE = ['c', 'v', 'v-', 'v0', 'p', 'p+', 'q1', 'q2+', 'm', 'nb', 's1', 's2', 'ms1', 'r', 'mr', 'd', 'sp', 'b', 'li1+', 'li2', 'qa', 'sr']
def structures(tier):
    """[(name, params)]"""
    q = tier == 'quick'
    L = [('wide', dict(kinds=WIDE, n=2, first=('p', 'v'))), ('wide from the start', dict(kinds=WIDE, n=2, first=())),
         ('wide, then a verse', dict(kinds=WIDE, n=2, first=('s1', 'q1', 'v'), last=('v',))),
         ('wide, then a chapter', dict(kinds=WIDE, n=2, first=('p', 'v'), last=('c', 'v'))),
         ('basic', dict(kinds=BASIC, n=3, first=('p', 'v'))), ('basic, then a verse', dict(kinds=BASIC, n=3, first=('s1', 'p', 'v'), last=('p', 'v'))),
         ('introduction', dict(kinds=['p', 's1', 'ms1'], n=1, intro=2, first=(), last=('v',)))]
    if not q:
        L += [('wide 3', dict(kinds=WIDE, n=3, first=('p', 'v'), last=('v',))), ('basic 4', dict(kinds=BASIC, n=4, first=('p', 'v'))), ('basic 5', dict(kinds=['c', 'v', 'p', 'q1+', 's1'], n=5, first=('p',))),
              ('long introduction', dict(kinds=['p', 's1', 'ms1'], n=1, intro=3, first=(), last=('v',)))]
    return L

def bible(books, name='Test Bible'):
    """A Bible of loaded books"""
    from BibleOrgSys.Bible import Bible
    B = Bible()
    B.name = name; B.objectNameString = 'Test Bible'; B.objectTypeString = 'USFM3'; B.abbreviation = 'TST'
    for b in books:
        B.books[b.BBB] = b; B.availableBBBs.add(b.BBB)
    return B
