"""P40: loading ESFM Bibles: books, the files they name, and links from words to the rows of a table."""
import os
from harness import common, usfmload
PROPERTY = 'P40'
ASSUMPTIONS = ['UTF-8 files', 'the first line is an \\id line', 'books are named like 01GENT.ESFM', 'words with links are of letters and right single quotes; each is followed by the broken bar and the number of a row']
OUTSIDE = 'lines with unknown markers which do not start with a known one: they are left out with an error message; the dictionaries in the books XXD and XXE; SSF files; separate folders for testaments'
T = [(0x21, 0x21), (0x24, 0x29), (0x2b, 0x3b), (0x3f, 0x5b), (0x5d, 0x5e), (0x60, 0x7a), (0xe9, 0xe9), (0x2019, 0x2019)]
W = [(0x41, 0x5a), (0x61, 0x7a), (0x113, 0x113), (0x2b8, 0x2b8), (0x2019, 0x2019)]

def setup():
    global EB, ESFM, Bible, NL
    G = common.preload()
    from types import SimpleNamespace
    G.commandLineArguments = SimpleNamespace(export=False)
    usfmload.setup()
    from BibleOrgSys.Formats import ESFMBibleBook as EB, ESFMBible as EM
    ESFM = EM.ESFMBible
    from BibleOrgSys.Bible import Bible
    from harness import filenames
    filenames.setup(); filenames.ORDER = None

class Writer(usfmload.Writer):
    size = 2
    def text(self, lo=None, hi=None, dom=T): return super().text(lo or self.size, hi or self.size, dom)
    def step(self, k):
        if k == 'f': self.more('\\f + \\fr 1:1 \\ft %s\\f*%s' % (self.text(), self.text(1, 1)), False)
        elif k == 'indent': self.new('v', '%d %s' % (self.v + 1, self.text())); self.v += 1; self.lines[-1] = '  ' + self.lines[-1]
        elif k == 'indented cont': t = self.text(dom=[(0x23, 0x23)] + T); self.more(t, always=True); self.lines[-1] = ' ' * self.sx.choice('sp%d' % self.n, (1, 3)) + t
        elif k == 'spaces': self.lines.append('   ')
        elif k == 'comment': self.lines.append('#' + self.text(1, 2, T + [(0x20, 0x20)]))
        elif k == 'joined': self.v += 1; self.new('v', '%d %s_ %s _%s' % (self.v, self.text(), self.text(), self.text(1, 1)))
        elif k == 'links': self.v += 1; self.new('v', '%d %s¦%d %s¦%d' % (self.v, self.text(1, 2, W), 3, self.text(1, 2, W), 120))
        elif k == 'tags': self.v += 1; self.new('v', '%d %s=P%s {%s %s}=G' % (self.v, self.text(1, 2, W), self.text(1, 1, W), self.text(1, 1, W), self.text(1, 1, W)))
        elif k == 'unk': t = self.text(); self.lines.append('\\qz ' + t); self.want.append(('q1', 'z ' + t)) # in ESFM markers have their numbers
        else: super().step(k)

NEW = ('c', 'v', 'v0', 'p', 'q1+', 's1+')
MORE = ('cont', 'add', 'nd', 'addopen', 'addclose', 'w', 'ww', 'f', 'x', 'indented cont')
ODD = ('v~', 'vsp', 'vaddsp', 'vqq', 'vinv', 'vinqv', 'vaddp', 'unk', 'blank', 'spaces', 'comment', 'indent', 'joined', 'links', 'tags')
SILENT = ('blank', 'spaces', 'comment')

def sequences(sx, kinds, final=True, bom=False, size=2):
    w = Writer(sx); w.size = size
    w.new('id', 'JNA'); w.new('c', '1'); w.c = 1; w.new('p', '')
    for i, k in enumerate(kinds): w.step(sx.choice('k%d' % i, k) if isinstance(k, tuple) else k)
    if bom: w.lines[0] = '\ufeff' + w.lines[0]
    b = Bible(); b.abbreviation = 'T'; b.workName = 'T'
    k = EB.ESFMBibleBook(b, 'JNA')
    q = sx.attempt(k.load, sx.file('JNA.ESFM', w.lines, final))
    sx.check(q.ok, 'the file is loaded')
    usfmload.compare(sx, k._rawLines, w.want)

def head(sx, code, refs):
    """The first lines of a book, which name other files"""
    return ['\\id %s' % code, '\\usfm 3.0', '\\ide UTF-8', '\\rem ESFM v0.6 %s' % code] + ['\\rem %s %s' % x for x in refs]

def folder(sx, books, tables=()):
    """An ESFM Bible in a folder: books [(number, code, lines)], tables [(name, lines)]"""
    d = sx.scratchDir(); b = os.path.basename(d)
    for n, c, lines in books: sx.file(os.path.join(b, '%s%sT.ESFM' % (n, c)), lines)
    for n, lines in tables: sx.file(os.path.join(b, n), lines)
    B = ESFM(d, givenName='T', givenAbbreviation='T'); B.loadAuxilliaryFiles = True
    q = sx.attempt(B.loadBooks)
    sx.check(q.ok, 'the Bible is loaded')
    return B

BOOKS = (('01', 'GEN', 'GEN'), ('02', 'EXO', 'EXO'), ('33', 'JON', 'JNA'))
def auxiliary(sx, n, same, skip=()):
    """Which files the books name"""
    books = []; want = {}
    for i in range(n):
        num, code, BBB = BOOKS[i]; refs = []; want[BBB] = {}
        stem = 'T' if same else 'T%d' % i
        for kind, ext in (('WORKDATA', '.txt'), ('FILEDATA', '.%s.txt' % code), ('WORDTABLE', '.words.tsv')):
            if kind in skip and i == 0 or not sx.bool('%s%d' % (kind, i)): want[BBB][kind] = None; continue
            want[BBB][kind] = stem + ext; refs.append((kind, stem + ext))
        if len(refs) > 1 and sx.bool('o%d' % i): refs = refs[::-1]
        t = sx.string('t%d' % i, 1, 1, W)
        books.append((num, code, head(sx, code, refs) + ['\\c 1', '\\p', '\\v 1 ' + t]))
    B = folder(sx, books)
    sx.check(sorted(B.books) == sorted(want), 'the books')
    got = {'WORKDATA': B.ESFMWorkData, 'FILEDATA': B.ESFMFileData, 'WORDTABLE': B.ESFMWordTables}
    for BBB, w in want.items():
        k = B.books[BBB]
        sx.check((k.ESFMWorkDataFilename, k.ESFMFileDataFilename, k.ESFMWordTableFilename) == (w['WORKDATA'], w['FILEDATA'], w['WORDTABLE']), 'the files named by the book')
    for kind in got: sx.check(sorted(got[kind]) == sorted({w[kind] for w in want.values() if w[kind]}), 'the files named by the books of the Bible')

LINKS = ('Word_{n}.htm', 'https://x.org/{BBB}/{W}/{n}.html', '{BBB}{BBB}{BBB}{n}{BBB}{n}')
TITLES = (None, '{W} {n}', '«Name»', '{BBB}: «Form» of «Name»')
def fill(t, BBB, w, n, row=None):
    for a, b in (('{W}', w), ('{BBB}', BBB), ('{n}', n)): t = t.replace(a, b)
    if row is not None:
        for a, b in row.items(): t = t.replace('«%s»' % a, b)
    return t

def live(sx, shapes, links, titles, numbers=('1', '2'), table=True, long=1):
    link = sx.choice('link', links); title = sx.choice('title', titles) if len(titles) > 1 else titles[0]
    rows = [{'Name': sx.string('r%da' % i, 2 * i, 2 * i, 'abZ \u2019'), 'Form': sx.string('r%db' % i, 1, 1, 'xyZ')} for i in range(2)] if table and title and '«' in title else [{'Name': 'a', 'Form': 'b'}, {'Name': 'c', 'Form': 'd'}]
    lines = head(sx, 'JON', [('WORDTABLE', 'T.words.tsv')] if table else []) + ['\\c 1', '\\p']
    n = 0; want = []
    for v, sh in enumerate(shapes, 1):
        if isinstance(sh, tuple): sh = sx.choice('s%d' % v, sh)
        plain, linked = '', ''
        for c in sh:
            if c in 'LS':
                n += 1; w = sx.string('w%d' % n, 1, 2 if n == long else 1, W); w = w + '\\sup ' + sx.string('u%d' % n, 1, 1, W) + '\\sup*' if c == 'S' else w; num = sx.choice('n%d' % n, numbers) if n < 3 else numbers[-1]
                a = w + '¦' + num
                row = rows[int(num) - 1] if table and int(num) <= len(rows) else None
                tt = 'title="%s" ' % fill(title, 'JNA', w, num, row) if title else ''
                b = '<a %shref="%s">%s</a>' % (tt, fill(link, 'JNA', w, num), w)
            elif c == 't': n += 1; a = b = sx.string('t%d' % n, 1, 2, W)
            else: a = b = {' ': ' ', '.': '.', '(': '\\add ', ')': '\\add*', 'f': '\\f + \\ft note\\f*', '“': '“', '_': '—', '<': '\\nd ', '>': '\\nd*'}[c]
            plain, linked = plain + a, linked + b
        lines.append('\\v %d %s' % (v, plain)); want.append((str(v), linked, plain))
    bom = '\ufeff' if table and sx.bool('bom') else ''
    tab = [('T.words.tsv', [bom + 'Name\tForm'] + [r['Name'] + '\t' + r['Form'] for r in rows])] if table else []
    B = folder(sx, [('33', 'JON', lines)], tab)
    old = B.books['JNA']._processedLines
    q = sx.attempt(B.livenESFMWordLinks, 'JNA', old, link, title)
    sx.check(q.ok, 'the links are made')
    new, tabRows = q.value
    sx.check(len(new) == len(old), 'no entries are lost or added')
    texts = iter(want)
    for x, y in zip(old, new):
        sx.check(x.getMarker() == y.getMarker() and x.getOriginalMarker() == y.getOriginalMarker(), 'the markers of the entries')
        if x.getMarker() == 'v~':
            num, w, p = next(texts)
            sx.check(sx.same(y.getOriginalText(), w), 'each word with a number is a link, and the rest of the text stays')
        elif x.getMarker() != 'v': sx.check(sx.same(x.getFullText() or '', y.getFullText() or ''), 'entries without such words stay as they were')
    sx.check(next(texts, None) is None, 'all verses are there')
    if table:
        sx.check(tabRows is not None and len(tabRows) == 3, 'the rows of the table')
        for g, r in zip(tabRows[1:], rows): sx.check(sx.same(g, r['Name'] + '\t' + r['Form']), 'the rows of the table')
    else: sx.check(tabRows is None, 'no table')

SHAPES = ('L', 'L L', 't L t', 'L. t L', '(L)', 't (L L) L', 'L_L', 'Lf t L', '“L', '(<L>)', 'S t L', 't t')
def cases(tier):
    q = tier == 'quick'; out = []
    def s(name, *kinds, **kw): out.append((name, sequences, dict(kinds=kinds, **kw)))
    s('new new new', NEW, NEW, NEW)
    s('new more', ('v', 'p+', 's1+', 'q2'), MORE)
    s('new more more', 'v', MORE, MORE)
    s('more new', ('v', 'p+'), MORE, NEW)
    s('odd', ODD, bom=True)
    s('new odd', ('v', 'p+'), ODD, final=False)
    s('odd more', ODD, MORE, size=1)
    s('odd odd', ODD, ODD)
    if not q:
        s('T more more more', 'v', MORE, MORE, MORE)
        s('T new odd new', NEW, ODD, NEW)
        s('T new4', NEW, NEW, NEW, NEW)
    for n in (1, 2) if q else (1, 2, 3):
        for same in (True, False): out.append(('files named by %d books%s' % (n, ', shared' if same else ''), auxiliary, dict(n=n, same=same)))
    out.append(('links, all templates', live, dict(shapes=(('L', 'L L', 't L t'),), links=LINKS, titles=TITLES)))
    out.append(('links, all shapes', live, dict(shapes=(SHAPES, 'L'), links=LINKS[:2], titles=(None,))))
    out.append(('links, all shapes with titles', live, dict(shapes=(SHAPES,), links=LINKS[2:], titles=TITLES[2:3])))
    out.append(('links without a table', live, dict(shapes=(('L', 'L t L'),), links=LINKS[:2], titles=TITLES[:2], numbers=('1', '30', '999999'), table=False)))
    if not q:
        out.append(('T links, two verses', live, dict(shapes=(SHAPES, SHAPES), links=LINKS, titles=(None,))))
        out.append(('T links, titles', live, dict(shapes=(SHAPES,), links=LINKS, titles=TITLES)))
    return out
