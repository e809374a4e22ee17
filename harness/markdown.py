"""P41: the Markdown export."""
from harness import common, bookmaker, usfmexport
from harness.textexports import Book as TextBook, T
PROPERTY = 'P41'
ASSUMPTIONS = ['the Bible was loaded from lines with known markers', 'the zip file made besides (stubbed out) holds the files written']
OUTSIDE = 'how character formatting is shown; the form of the links to the notes; figures; white space and blank lines'
W = [(0x24, 0x25), (0x2b, 0x2c), (0x30, 0x39), (0x61, 0x7a), (0xe9, 0xe9), (0x2019, 0x2019)]
N = [(0x3b1, 0x3c9)]
MARK = {'add': '_', 'bk': '_', 'w': '_', 'it': '_', 'bd': '*', 'nd': '', 'wj': '', 'sc': '', 'sig': '', 'k': ''}

def setup():
    global BW
    BW = usfmexport.setupWriter()

class Book(TextBook):
    """rows: what the lines of the file should be, lists of pieces to be joined by spaces; notes: what the notes say"""
    def __init__(self, sx, BBB):
        super().__init__(sx, BBB); self.rows = []; self.notes = []
    def text(self, lo=2, hi=2, dom=W): return super().text(lo, hi, dom)
    def note(self): return super().text(2, 2, N)
    def verse(self, raw, clean=None, number=None, published=None):
        super().verse(raw, clean, number, published)
        self.rows.append([(published or self.verses[-1][1])] + self.verses[-1][3]); self.open = True
    def more(self, a):
        if self.open: self.rows[-1].append(a)
        else: self.rows.append([a]); self.open = True
    def head(self, level, a): self.rows.append(['#' * level, a]); self.open = False
    def add(self, k):
        sx, t = self.sx, self.text
        if k in ('mt1', 'mt2', 'mt3', 'imt1'): a = t(); self.lines.append((k, a)); self.head(int(k[-1]), a)
        elif k in ('s1', 's2', 's3', 'ms1', 'ms2', 'is1'): a = t(); self.lines.append((k, a)); self.head(int(k[-1]) + 2, a)
        elif k in ('ip', 'd', 'r', 'sp', 'qa', 'mr'): a = t(); self.lines.append((k, a)); self.more(a)
        elif k == 'c': super().add(k); self.rows.append(['Chapter %d' % self.c]); self.open = False
        elif k[-1] == '+': a = t(); self.lines.append((k[:-1], a)); self.more(a)
        elif k == 'vt': self.verse(t(3, 3, T))
        elif k == 'vn':
            a, b, c = t(), self.note(), t(1, 1); self.verse('%s\\f + \\fr 1:1 \\ft %s\\f*%s' % (a, b, c), [a, c]); self.notes.append(b)
        elif k == 've':
            a, b, c = t(), self.note(), t(1, 1); self.verse('%s\\fe + \\fr 1:1 \\ft %s\\fe*%s' % (a, b, c), [a, c]); self.notes.append(b)
        elif k == 'vx':
            a, b, c = t(), self.note(), t(1, 1); self.verse('%s\\x - \\xo 1:1 \\xt %s\\x*%s' % (a, b, c), [a, c]); self.notes.append(b)
        elif k == 'v3n':
            x = [t(1, 1) for j in range(4)]; n = [self.note() for j in range(3)]
            self.verse('%s\\f + \\ft %s\\f*%s\\x - \\xo 1:1 \\xt %s\\x*%s\\f + \\fr 1:1 \\ft %s\\f*%s' % (x[0], n[0], x[1], n[1], x[2], n[2], x[3]), x); self.notes += n
        elif k == 'vnx':
            a, b, c, d, e = t(1, 1), self.note(), t(1, 1), self.note(), t(1, 1)
            self.verse('%s\\f + \\ft %s\\f*%s\\x - \\xo 1:1 \\xt %s\\x*%s' % (a, b, c, d, e), [a, c, e]); self.notes += [b, d]
        elif k == 'char':
            m = sx.choice('m%d' % self.n, tuple(MARK)); a, b, c = t(1, 1), t(), t(1, 1); s = MARK[m]
            self.verse('%s \\%s %s\\%s* %s' % (a, m, b, m, c), '%s %s%s%s %s' % (a, s, b, s, c))
        else: super().add(k)

def fits(sx, row, pieces):
    """The row is the pieces joined by spaces; a piece that is a list has links to notes between its parts"""
    for i, p in enumerate(pieces):
        if i:
            sx.check(row[:1] == ' ', 'a space between the parts'); row = row[1:]
        for j, q in enumerate(p if isinstance(p, list) else [p]):
            if j:
                sx.check(row[:1] == '[', 'the link to the note'); k = row.find('](')
                sx.check(k > 0, 'the link to the note'); e = row.find(')', k)
                # The link may hold the text of a reference with brackets
                sx.check(e > 0, 'the end of the link')
                row = row[e + 1:]
            sx.check(sx.same(row[:len(q)], q), 'the text'); row = row[len(q):]
    sx.check(len(row) == 0, 'nothing more')

def made(sx, books):
    d = usfmexport.export(sx, usfmexport.writer([b.book() for b in books]), 'toMarkdown')
    for b in books:
        text = sx.readBack('%s/BOS-BibleWriter-%s.md' % (d, b.BBB))
        sx.observe('text', text)
        got = [l.strip() for l in usfmexport.split(sx, text)]
        got = [l for l in got if len(l)]
        for n in b.notes: sx.check(n in text, 'the text of the note')
        sx.check(len(got) >= len(b.rows), 'as many lines')
        for g, w in zip(got, b.rows): fits(sx, g, w)
        rest = got[len(b.rows):]
        sx.check(len(rest) <= len(b.notes) * 2 + 2 if b.notes else not rest, 'nothing more than the notes')

def lines(sx, kinds, BBB='JNA'):
    b = Book(sx, BBB)
    for i, k in enumerate(kinds): b.add(sx.choice('k%d' % i, k) if isinstance(k, tuple) else k)
    made(sx, [b])
def several(sx, BBBs):
    books = []
    for i, BBB in enumerate(BBBs):
        b = Book(sx, BBB); b.n = 20 * i
        for j in range(sx.choice('c%d' % i, (1, 2))):
            for k in ('c', 'p', 'vx', 've', 'vn'): b.add(k)
        books.append(b)
    made(sx, books)

VERSES = ('v', 'v-', 'va', 'v0', 'vn', 've', 'vx', 'vnx', 'v3n', 'vp')
HEADS = ('s1', 's2', 's3', 'ms1', 'ms2', 'r', 'd', 'sp', 'mr')
MID = ('p', 'm', 'q1', 'b', 'nb', 'li1+', 'q1+', 'p+', 'q2+', 'm+') + HEADS + VERSES
PRE = ('mt2', 'mt3', 'imt1', 'is1', 'ip')
def cases(tier):
    out = [('beginning', lines, dict(kinds=('h', 'toc1', 'mt1', PRE, PRE, 'c', 'p', 'v'))),
           ('after the chapter', lines, dict(kinds=('mt1', 'c', ('p', 'p+', 'q1+') + HEADS, ('p', 'p+') + HEADS, 'v'))),
           ('verses', lines, dict(kinds=('c', 'p', VERSES, VERSES))),
           ('two', lines, dict(kinds=('c', 'p', 'v', MID, MID))),
           ('chapters', lines, dict(kinds=('c', 'p', 'v', MID, 'c', ('p', 's1', 'q1', 'v'), VERSES))),
           ('any text', lines, dict(kinds=('c', 'p', 'vt', ('p', 's1'), 'vt'))),
           ('character markers', lines, dict(kinds=('c', 'p', 'char', 'char'))),
           ('several', several, dict(BBBs=('GEN', 'JDE')))]
    if tier == 'thorough': out.append(('T three', lines, dict(kinds=('c', 'p', 'v', MID, MID, MID))))
    return out
