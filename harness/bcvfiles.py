"""P27: Bibles written as one file per verse."""
from harness import common, bookmaker, usfmexport
PROPERTY = 'P27'
ASSUMPTIONS = ['the Bible was loaded from lines with known markers', 'the zip files made besides (stubbed out) hold the files written']
OUTSIDE = 'books whose only chapter has no verses; the time stamps, versions and the zip file'
def setup():
    global BC
    usfmexport.setup()
    from BibleOrgSys.Formats import BCVBible as BC

def reload(sx, books, quotes=False):
    B = usfmexport.writer(books)
    d = usfmexport.export(sx, B, 'toBOSBCV')
    C = BC.BCVBible(d + '/', 'T', 'T')
    q = sx.attempt(C.preload)
    sx.check(q.ok, 'the metadata can be loaded')
    sx.check(C.givenBookList == [b.BBB for b in books], 'the list of books')
    for b in books:
        q = sx.attempt(C.loadBook, b.BBB)
        sx.check(q.ok and b.BBB in C.books, 'the book can be loaded')
        old, new = bookmaker.entries(b), bookmaker.entries(C.books[b.BBB])
        sx.check(len(old) == len(new), 'as many entries')
        for x, y in zip(old, new):
            sx.check(x.getMarker() == y.getMarker(), 'the markers')
            if x.getOriginalMarker() is not None:
                sx.check(x.getOriginalMarker() == y.getOriginalMarker(), 'the original markers')
                sx.check(sx.same(x.getOriginalText() or '', y.getOriginalText() or ''), 'the original texts')
                if not quotes: # which are changed according to the kind of the file
                    sx.check(sx.same(x.getAdjustedText() or '', y.getAdjustedText() or ''), 'the adjusted texts')
                    sx.check(sx.same(x.getCleanText() or '', y.getCleanText() or ''), 'the clean texts')
                a, c = x.getExtras(), y.getExtras()
                sx.check(len(a or []) == len(c or []), 'as many notes')
                for e, f in zip(a or [], c or []):
                    sx.check(e.getType() == f.getType() and e.getIndex() == f.getIndex(), 'the kind and place of the note')
                    sx.check(sx.same(e.getText(), f.getText()), 'the text of the note')
            else: sx.check(not y.getOriginalText(), 'no text where there was none')
        k1, k2 = list(b._CVIndex), list(C.books[b.BBB]._CVIndex)
        sx.check(k1 == k2, 'the same verses')

DOM = [(0x21, 0x21), (0x24, 0x29), (0x2b, 0x3b), (0x3d, 0x3d), (0x3f, 0x5b), (0x5d, 0x60), (0x61, 0x7a), (0xe9, 0xe9), (0x2019, 0x2019)]
class L(usfmexport.Lines):
    def text(self, lo=2, hi=2, dom=DOM): return super().text(lo, hi, dom)

def lines(sx, kinds, BBB='JNA'):
    m = L(sx); m.put('id', BBB + ' test')
    for i, k in enumerate(kinds): m.add(sx.choice('k%d' % i, k) if isinstance(k, tuple) else k)
    reload(sx, [bookmaker.book(m.lines, BBB)])

def quotes(sx, n):
    """Characters that are also separators in the files."""
    m = L(sx); m.put('id', 'JNA test'); m.put('c', '1'); m.put('p', '')
    m.put('v', '1 ' + sx.string('t', 1, n, '<=>a'))
    m.put('q', sx.string('u', 1, 2, '<=a'))
    reload(sx, [bookmaker.book(m.lines)], quotes=True)

def several(sx, BBBs):
    books = []
    for i, BBB in enumerate(BBBs):
        m = L(sx); m.n = 10 * i; m.put('id', BBB + ' test')
        if BBB == 'FRT': m.put('ip', m.text()); m.put('h', m.text())
        else:
            m.put('h', m.text()); m.put('c', '1'); m.put('p', ''); m.add('v'); m.add('v'); m.put('c', '2'); m.add('v')
        books.append(bookmaker.book(m.lines, BBB))
    reload(sx, books)

def cases(tier):
    out = []
    P, V, M = usfmexport.PRE, usfmexport.VERSES, usfmexport.MID
    def a(name, *kinds, **kw): out.append((name, lines, dict(kinds=kinds, **kw)))
    a('beginning', P, P, 'c', 'p', 'v')
    a('no introduction', 'c', ('p', 's1', 'v'), 'v')
    a('verses', 'c', 'p', V, V)
    a('after a verse', 'c', 'p', 'v', M, V)
    a('two', 'c', 'p', 'v', M, M)
    a('chapter', 'c', ('cl', 'cp', 'cd', 's1', 'd'), 'p', 'v', 'c', ('cp', 's1', 'v'), 'v')
    a('single chapter', 'c', 'p', V, 'v', BBB='JDE')
    out.append(('quotes', quotes, dict(n=4)))
    for n, x in (('two books', ('GEN', 'JNA')), ('front matter', ('FRT', 'GEN')), ('only front matter', ('FRT',))): out.append((n, several, dict(BBBs=x)))
    if tier == 'thorough':
        a('T three', 'c', 'p', 'v', M, M, V)
        out.append(('T quotes', quotes, dict(n=6)))
        out.append(('T three books', several, dict(BBBs=('FRT', 'JDE', 'MAT'))))
    return out
