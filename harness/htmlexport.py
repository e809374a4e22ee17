"""P42: the web pages."""
from harness import common, bookmaker, usfmexport
from harness.textexports import Book as TextBook
from harness.markdown import N
PROPERTY = 'P42'
ASSUMPTIONS = ['the Bible was loaded from lines with known markers', 'the zip file made besides (stubbed out) holds the files written', 'the style sheet is copied as it is']
OUTSIDE = 'text with the characters < > &; tables; figures; chapter numbers with cp and cl; the home page and the about page; the styles of the text'
W = [(0x24, 0x25), (0x2b, 0x2c), (0x30, 0x39), (0x61, 0x7a), (0xe9, 0xe9), (0x2019, 0x2019)]
MARK = ('add', 'bk', 'nd', 'wj', 'it', 'bd', 'bdit', 'sc', 'sig', 'k', 'rq', 'qs', 'w')

def setup():
    global BW
    BW = usfmexport.setupWriter()
    from types import SimpleNamespace
    BW.shutil = SimpleNamespace(copy=lambda *a: None)

class Book(TextBook):
    """rows: the texts to be shown, in order; notes: (kind, text); ids: the verses' places"""
    def __init__(self, sx, BBB):
        super().__init__(sx, BBB); self.rows = []; self.notes = []; self.ids = []; self.shown = 0; self.numbers = []; self.para = False
        self.assumedBookName = BBB.title()
    def text(self, lo=2, hi=2, dom=W): return super().text(lo, hi, dom)
    def note(self): return super().text(2, 2, N)
    def chapterNumber(self):
        if self.c and self.shown != self.c: self.numbers.append(str(self.c)); self.shown = self.c
    def verse(self, raw, clean=None, number=None, published=None):
        super().verse(raw, clean, number, published); self.chapterNumber()
        self.ids.append('C%dV%s' % (self.c, self.verses[-1][1]))
        self.rows.append(published or self.verses[-1][1])
        if self.verses[-1][3]: self.rows.append(self.verses[-1][3][0])
    def add(self, k):
        sx, t = self.sx, self.text
        if k[0] == 'v' or k in ('char', 'nested'):
            if not self.para: self.add('p')
        else: self.para = k in ('p', 'm', 'q1', 'q2', 'li1', 'li2') or k[-1] == '+' or k == 'nb' and self.para
        if k in ('mt1', 'mt2', 'imt1', 's1', 's2', 's3', 'ms1', 'ms2', 'is1', 'ip', 'ipi', 'iot', 'd', 'sp', 'qa'):
            a = t(); self.lines.append((k, a)); self.rows.append(a)
        elif k in ('r', 'sr', 'mr'): self.lines.append((k, '(Jonah 1:2)')); self.rows.append('(Jonah 1:2)')
        elif k in ('io1', 'io2'): a = t(2, 2, 'abc'); self.lines.append((k, a)); self.rows.append(a)
        elif k == 'c': super().add(k)
        elif k[-1] == '+': self.chapterNumber(); a = t(); self.lines.append((k[:-1], a)); self.rows.append(a)
        elif k in ('vn', 've', 'vx'):
            a, b, c = t(), self.note(), t(1, 1); m, o, x = {'vn': ('f +', 'fr', 'ft'), 've': ('fe +', 'fr', 'ft'), 'vx': ('x -', 'xo', 'xt')}[k]
            self.verse('%s\\%s \\%s 1:1 \\%s %s\\%s*%s' % (a, m, o, x, b, m.split()[0], c), '%s[%s]%s' % (a, 'xr' if k == 'vx' else 'fn', c)); self.notes.append((k, b))
        elif k == 'v3n':
            x = [t(1, 1) for j in range(4)]; n = [self.note() for j in range(3)]
            self.verse('%s\\f + \\ft %s\\f*%s\\x - \\xo 1:1 \\xt %s\\x*%s\\f + \\fr 1:1 \\ft %s\\f*%s' % (x[0], n[0], x[1], n[1], x[2], n[2], x[3]), '%s[fn]%s[xr]%s[fn]%s' % tuple(x)); self.notes += [('vn', n[0]), ('vx', n[1]), ('vn', n[2])]
        elif k == 'vnx':
            a, b, c, d, e = t(1, 1), self.note(), t(1, 1), self.note(), t(1, 1)
            self.verse('%s\\f + \\ft %s\\f*%s\\x - \\xo 1:1 \\xt %s\\x*%s' % (a, b, c, d, e), '%s[fn]%s[xr]%s' % (a, c, e)); self.notes += [('vn', b), ('vx', d)]
        elif k == 'char':
            m = sx.choice('m%d' % self.n, MARK); a, b, c = t(1, 1), t(), t(1, 1)
            self.verse('%s \\%s %s\\%s* %s' % (a, m, b, m, c), '%s %s %s' % (a, b, c))
        elif k == 'nested':
            a, b = t(1, 1), t()
            self.verse('%s \\wj %s \\+nd %s\\+nd* %s\\wj* %s' % (a, b, b, a, b), ' '.join((a, b, b, a, b)))
        elif k == 'head\\':
            a, b = t(), self.note(); self.lines.append(('s1', '%s\\f + \\ft %s\\f*' % (a, b))); self.rows.append('%s[fn]' % a); self.notes.append(('vn', b))
        else: super().add(k)

EMPTY = ('meta', 'link', 'hr', 'br', 'img')
OWN = ('verse', 'verseText', 'verseOneNumber', 'verseNumber', 'chapterNumber', 'chapterStart', 'verseOnePrespace', 'verseOnePostspace', 'verseNumberPrespace', 'verseNumberPostspace', 'chapterNumberPostspace')
def page(sx, text):
    """[(texts with no other element between, the names of the elements they are in)], the ids, the links"""
    out, ids, links, stack, p = [], [], [], [], 0
    current = ''
    def flush():
        nonlocal current
        current = current.strip()
        if len(current): out.append((current, [n for n, i, a in stack], [a.get('id') for n, i, a in stack], [a.get('class') for n, i, a in stack]))
        current = ''
    while True:
        i = text.find('<', p)
        if i < 0: break
        current = current + text[p:i]
        j = text.find('>', i); sx.check(j > 0, 'the end of the tag'); tag = text[i + 1:j]; p = j + 1
        if tag[:1] == '!': continue
        if tag[:1] == '/':
            name = tag[1:]
            sx.check(len(stack) > 0 and stack[-1][0] == name, 'the elements are nested')
            if not stack[-1][1]: flush()
            stack.pop(); continue
        k = tag.find(' '); name = tag if k < 0 else tag[:k]; attrs = {}
        rest = '' if k < 0 else tag[k + 1:]
        while len(rest):
            e = rest.find('="')
            if e < 0: break
            f = rest.find('"', e + 2); attrs[str(rest[:e].strip())] = rest[e + 2:f]; rest = rest[f + 1:]
        if name in EMPTY: continue
        inline = name == 'a' or name == 'span' and not any(attrs.get('class') == o for o in OWN)
        if 'id' in attrs: ids.append(attrs['id'])
        if name == 'a' and 'href' in attrs: links.append((attrs['href'], [n for n, i_, a in stack], attrs.get('title')))
        if not inline: flush()
        stack.append((name, inline, attrs))
    sx.check(not stack, 'every element is closed')
    return out, ids, links

def made(sx, books):
    B = usfmexport.writer([b.book() for b in books])
    for b in B: b.assumedBookName = b.BBB.title(); b.assumedBookNames = [b.BBB.title()]
    d = usfmexport.export(sx, B, 'toHTML5')
    for n, b in enumerate(books):
        text = sx.readBack('%s/Website/%s.html' % (d, b.BBB))
        out, ids, links = page(sx, text)
        sx.observe('page', [x[0] for x in out])
        for i in ids: sx.check(sum(1 for j in ids if j == i) == 1, 'no two places have the same name')
        numbers = [t for t, s, i, c in out if any(k == 'chapterNumber' for k in c)]
        sx.check(len(numbers) == len(b.numbers) and all(g == w for g, w in zip(numbers, b.numbers)), 'the chapter numbers')
        main = [(t, i) for t, s, i, c in out if not any(k == 'chapterNumber' for k in c) and not any(n in s for n in ('head', 'header', 'nav', 'footer'))]
        main = [(t.replace('&nbsp;', '').strip(), i) for t, i in main]; main = [(t, i) for t, i in main if len(t)]
        sx.check(len(main) >= len(b.rows), 'all the texts are there')
        for (t, i), w in zip(main, b.rows): sx.check(sx.same(t, w), 'the text')
        got = [i for i in ids if i[:1] == 'C' and i[1:2] in '123456789']
        sx.check(len(got) == len(b.ids) and all(g == w for g, w in zip(got, b.ids)), "the verses' places")
        after = main[len(b.rows):]; heads = len(set(k for k, t in b.notes))
        sx.check(len(after) == len(b.notes) + heads, 'the notes are there and nothing more')
        to = [(h[1:], t) for h, s, t in links if len(h) > 4 and h[:1] == '#' and (h[1:6] == 'FNote' or h[1:6] == 'ENote' or h[1:5] == 'XRef')]
        sx.check(len(to) == len(b.notes), 'a link for each note')
        for (h, title), (k, t) in zip(to, b.notes):
            sx.check(h in ids, 'the link leads to a note')
            here = [x for x, i in after if any(j is not None and j == h for j in i)]
            sx.check(len(here) == 1 and sx.same(here[0][-len(t):], t), 'the link leads to its note')
        nav = [str(h) for h, s, t in links if 'nav' in s]
        sx.check(nav == ['%s.html' % o.BBB for o in books if o is not b], 'links to the other books')
        heads = [str(h) for h, s, t in links if 'header' in s]
        if n: sx.check('%s.html' % books[n - 1].BBB in heads, 'the link to the book before')
        if n + 1 < len(books): sx.check('%s.html' % books[n + 1].BBB in heads, 'the link to the next book')

def lines(sx, kinds, BBB='JNA'):
    b = Book(sx, BBB)
    for i, k in enumerate(kinds): b.add(sx.choice('k%d' % i, k) if isinstance(k, tuple) else k)
    made(sx, [b])
def several(sx, BBBs):
    books = []
    for i, BBB in enumerate(BBBs):
        b = Book(sx, BBB); b.n = 20 * i
        for j in range(sx.choice('c%d' % i, (1, 2))):
            for k in ('c', 'p', 'vx', 've', 'vn'): b.add(k)
        books.append(b)
    made(sx, books)

VERSES = ('v', 'v-', 'va', 'v0', 'vn', 've', 'vx', 'vnx', 'v3n', 'vp')
HEADS = ('s1', 's2', 's3', 'ms1', 'ms2', 'r', 'mr', 'head\\')
MID = ('p', 'm', 'q1', 'b', 'nb', 'q1+', 'p+', 'q2+', 'm+') + HEADS + VERSES
PRE = ('mt2', 'imt1', 'is1', 'ip', 'iot', 'io1')
def cases(tier):
    out = [('beginning', lines, dict(kinds=('h', 'toc1', 'mt1', PRE, PRE, 'c', 'p', 'v'))),
           ('after the chapter', lines, dict(kinds=('mt1', 'c', ('p', 'p+', 'q1+', 'd', 'sp') + HEADS, ('p', 'p+', 'd') + HEADS, 'v'))),
           ('verses', lines, dict(kinds=('c', 'p', VERSES, VERSES))),
           ('two', lines, dict(kinds=('c', 'p', 'v', MID, MID))),
           ('lists', lines, dict(kinds=('c', ('p', 'li1', 's1'), 'v', ('li1+', 'li1', 'li2', 'p'), ('v', 'li1+', 'li2+', 's1', 'b', 'q1+', 'p'), ('v', 'p', 's1', 'li1')))),
           ('chapters', lines, dict(kinds=('c', 'p', 'v', MID, 'c', ('p', 's1', 'q1', 'v'), VERSES))),
           ('character markers', lines, dict(kinds=('c', 'p', ('char', 'nested'), 'v'))),
           ('several', several, dict(BBBs=('GEN', 'JDE')))]
    if tier == 'thorough': out.append(('T three', lines, dict(kinds=('c', 'p', 'v', MID, MID, MID))))
    return out
