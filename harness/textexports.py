"""P28: plain text exports have every verse, with its number and its whole text."""
from harness import common, bookmaker, usfmexport
PROPERTY = 'P28'
ASSUMPTIONS = ['the Bible was loaded from lines with known markers', 'the zip files made besides (stubbed out) hold the files written']
OUTSIDE = 'how headings and paragraphs are shown; text before the first verse of a chapter; published verse numbers in the verse-per-line export (not used there); the zip files; white space at the ends of the lines and blank lines'
T = [(0x21, 0x21), (0x24, 0x29), (0x2b, 0x3b), (0x3f, 0x5b), (0x5d, 0x60), (0x61, 0x7a), (0xe9, 0xe9), (0x2019, 0x2019)]

def setup():
    global BW
    BW = usfmexport.setupWriter()

class Book(bookmaker.Maker):
    """verses: [chapter, number, published number or None, [pieces of clean text], [pieces in the style of Drupal]]"""
    def __init__(self, sx, BBB, drupal=False):
        super().__init__(sx); self.BBB = BBB; self.verses = []; self.heads = []; self.drupal = drupal
        self.lines.append(('id', BBB + ' test'))
    def text(self, lo=2, hi=2, dom=T): return super().text(lo, hi, dom)
    def verse(self, raw, clean=None, number=None, published=None):
        self.v += 1
        n = number or str(self.v)
        self.lines.append(('v', n + (' ' + raw if len(raw) else '')))
        self.verses.append([self.c, n, published, [clean if clean is not None else raw] if len(raw) else []])
    def add(self, k):
        sx, t = self.sx, self.text
        if k == 'c': self.c += 1; self.v = 0; self.lines.append(('c', str(self.c)))
        elif k == 'v': self.verse(t())
        elif k == 'v-': n = self.v + 1; self.verse(t(), number='%d-%d' % (n, n + 1)); self.v += 1
        elif k == 'va': self.verse(t(), number='%da' % (self.v + 1))
        elif k == 'v0': self.verse('')
        elif k == 'vn': a, b, c = t(), t(), t(1, 1); self.verse('%s\\f + \\fr 1:1 \\ft %s\\f*%s' % (a, b, c), a + c)
        elif k == 'vx': a, b = t(), t(); self.verse('%s\\x - \\xo 1:1 \\xt %s\\x*' % (a, b), a)
        elif k == 'vch':
            a, b, c = t(1, 1), t(), t(1, 1)
            self.verse('%s \\add %s\\add* %s' % (a, b, c), ('%s <%s> %s' if self.drupal else '%s %s %s') % (a, b, c))
        elif k == 'vnd': a, b, c = t(1, 1), t(), t(1, 1); self.verse('%s \\nd %s\\nd* %s' % (a, b, c), '%s %s %s' % (a, b, c))
        elif k == 'vp': p = t(1, 2, '0123456789' if self.drupal else 'ab12'); a = t(); self.verse('\\vp %s\\vp*%s' % (p, a), a, published=p)
        elif k == 'char':
            m = sx.choice('m%d' % self.n, CHARS); a, b, c = t(1, 1), t(), t(1, 1)
            self.verse('%s \\%s %s\\%s* %s' % (a, m, b, m, c), ('%s <%s> %s' if self.drupal and m in ('add', 'it') else '%s %s %s') % (a, b, c))
        elif k == 'nested':
            a, b = t(1, 1), t()
            self.verse('%s \\wj %s \\+nd %s\\+nd* %s\\wj* %s' % (a, b, b, a, b), ' '.join((a, b, b, a, b)))
        elif k in ('s1', 's2', 'ms1', 'r', 'd', 'sp', 'mt1', 'h', 'ip', 'is1', 'rem', 'toc1'):
            a = t(); self.lines.append((k, a)); self.heads.append((k, a))
        elif k[-1] == '+': # goes on with the verse
            a = t(); self.lines.append((k[:-1], a)); self.verses[-1][3].append(a)
        else: self.lines.append((k, ''))
    def whole(self, verse): return ' '.join(verse[3]) if verse[3] else ''
    def book(self): return bookmaker.book(self.lines, self.BBB)

def rows(sx, text):
    """The lines which are not blank, without white space at the ends"""
    out = [l.strip() for l in usfmexport.split(sx, text)]
    if out and len(out[0]) and out[0][0] == '\ufeff': out[0] = out[0][1:].strip()
    return [l for l in out if len(l)]

def same(sx, got, want):
    got = list(got); want = [w for w in want if len(w)]
    sx.check(len(got) == len(want), 'as many lines as there should be')
    for g, w in zip(got, want): sx.check(sx.same(g, w), 'the line has what it should have')

def plain(sx, books):
    d = usfmexport.export(sx, usfmexport.writer([b.book() for b in books]), 'toText')
    for sub in ('', 'Without_ByteOrderMarker/'):
        for b in books:
            text = sx.readBack('%s/%sBOS-BibleWriter-%s.txt' % (d, sub, b.BBB))
            sx.check((text[:1] == '\ufeff') == (sub == ''), 'the byte order mark')
            want = [a for k, a in b.heads if k == 'mt1']; c = None
            for v in b.verses:
                if v[0] != c: c = v[0]; want.append('Chapter %d' % c)
                want.append(((v[2] or v[1]) + ' ' + b.whole(v)).strip())
            same(sx, rows(sx, text), want)

def vpl(sx, books):
    d = usfmexport.export(sx, usfmexport.writer([b.book() for b in books]), 'toVPL')
    names = {'GEN': 'Ge', 'MAT': 'Mt', 'JDE': 'Jude'}
    for b in books:
        n = names.get(b.BBB, b.BBB)
        got = [l for l in rows(sx, sx.readBack('%s/Forge/BOS-BibleWriter-%s.txt' % (d, n)))]
        want = []
        for v in b.verses: want += ['$$ %s %d:%s' % (n, v[0], v[1]), b.whole(v)]
        while got and got[0][0] == ';': got = got[1:]
        got = [l[1:].strip() if l[0] == "\u00b6" else l for l in got]
        same(sx, [l for l in got if len(l)], want)

def searcher(sx, books):
    d = usfmexport.export(sx, usfmexport.writer([b.book() for b in books]), 'toSwordSearcher')
    names = {'GEN': 'Ge', 'MAT': 'Mt', 'JDE': 'Jude', 'JNA': 'Jon', 'CO1': '1Co'}
    text = sx.readBack('%s/Bible.txt' % d)
    sx.check(text[:1] == '\ufeff', 'the byte order mark')
    want = ['; TITLE: Test', '; ABBREVIATION: TST']
    for b in books:
        for v in b.verses: want += ['$$ %s %d:%s' % (names[b.BBB], v[0], v[2] or v[1]), b.whole(v)]
    same(sx, rows(sx, text), want)

def drupal(sx, books):
    B = usfmexport.writer([b.book() for b in books])
    for b in B: b.assumedBookName = b.BBB.title()
    d = usfmexport.export(sx, B, 'toDrupalBible')
    names = {'GEN': 'GEN', 'MAT': 'MAT', 'JDE': 'JUD', 'JNA': 'JON', 'CO1': '1CO'}
    want = ['*Bible', '#shortname fullname language', 'Test|Test|en', '*Chapter', '#book,fullname,shortname,chap-count']
    for b in books: want.append('%s|%s|%s|%d' % (names[b.BBB], b.BBB.title(), names[b.BBB], b.c))
    want += ['*Context', '#Book,Chapter,Verse,LineMark,Context']
    for b in books:
        for v in b.verses:
            n = v[2] or v[1]
            if '-' in n: n = n[:n.index('-')]
            elif 'a' in n: n = n[:n.index('a')]
            if len(b.whole(v)): want.append('%s|%d|%s||%s' % (names[b.BBB], v[0], n, b.whole(v)))
    same(sx, rows(sx, sx.readBack('%s/Bible.txt' % d)), want)

FORMATS = {'text': plain, 'vpl': vpl, 'searcher': searcher, 'drupal': drupal}
def lines(sx, fmt, kinds, BBB='JNA'):
    b = Book(sx, BBB, fmt == 'drupal')
    for i, k in enumerate(kinds): b.add(sx.choice('k%d' % i, k) if isinstance(k, tuple) else k)
    FORMATS[fmt](sx, [b])

def several(sx, fmt, BBBs):
    books = []
    for i, BBB in enumerate(BBBs):
        b = Book(sx, BBB, fmt == 'drupal'); b.n = 20 * i
        for j in range(sx.choice("c%d" % i, (1, 2))):
            for k in ('c', 'p', 'v', 'v'): b.add(k)
        books.append(b)
    FORMATS[fmt](sx, books)

CHARS = ('add', 'bk', 'dc', 'k', 'nd', 'ord', 'pn', 'qt', 'rq', 'sig', 'sls', 'tl', 'wj', 'em', 'bd', 'it', 'bdit', 'no', 'sc', 'qs')
VERSES = ('v', 'v-', 'va', 'v0', 'vn', 'vx', 'vch', 'vnd', 'vp')
MID = ('p', 'm', 'q1', 'b', 'nb', 's1', 'ms1', 's2', 'li1+', 'q1+', 'p+', 'q2+') + VERSES
PRE = ('mt2', 'mt3', 'ip', 'is1', 'rem', 'toc1')
def cases(tier):
    out = []
    for f in FORMATS:
        no = {'vpl': ('vp',)}.get(f, ())
        V = tuple(k for k in VERSES if k not in no); M = tuple(k for k in MID if k not in no)
        H = ('r', 'd', 'sp') if f != 'vpl' else ()
        out += [('%s beginning' % f, lines, dict(fmt=f, kinds=(('h', 'toc1') if f != 'text' else 'toc1', 'mt1', PRE[2:], PRE[2:], 'c', 'p', 'v'))),
                ('%s verses' % f, lines, dict(fmt=f, kinds=('c', 'p', V, V))),
                ('%s after a verse' % f, lines, dict(fmt=f, kinds=('c', ('p', 's1') + H, 'v', M + H, V, 'v'))),
                ('%s two' % f, lines, dict(fmt=f, kinds=('c', 'p', 'v', M, M))),
                ('%s chapters' % f, lines, dict(fmt=f, kinds=('c', 'p', 'v', M + H, 'c', ('p', 's1', 'q1', 'v'), V))),
                ('%s character markers' % f, lines, dict(fmt=f, kinds=('c', 'p', ('char', 'nested'), 'v'))),
                ('%s several' % f, several, dict(fmt=f, BBBs=('GEN', 'JDE', 'CO1') if f in ('text', 'searcher', 'drupal') else ('GEN', 'JDE', 'MAT')))]
        if tier == 'thorough': out.append(('T %s three' % f, lines, dict(fmt=f, kinds=('c', 'p', 'v', M, M, M))))
    return out
