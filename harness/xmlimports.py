"""P32: reading Bibles in XML formats keeps every verse, at its place, with its whole text."""
import os
from harness import common, bookmaker
PROPERTY = 'P32'
ASSUMPTIONS = ['well-formed UTF-8 files with the elements and attributes the readers know', 'books and chapters in order; no backslashes in the texts', 'the XML parser of the engine reads the files while texts are symbolic (replays use xml.etree.ElementTree)']
OUTSIDE = 'the text of Zefania notes (left out), the amount of white space, white space at the ends of texts and next to notes and character fields, elements and attributes the readers do not know (warned about), the headers; USX without a version; OSIS, LEB; published and alternative numbers but those of USX chapters and verses'
T = [(0x24, 0x24), (0x26, 0x26), (0x28, 0x29), (0x2c, 0x2e), (0x30, 0x3c), (0x3e, 0x3f), (0x41, 0x5b), (0x5d, 0x5d), (0x61, 0x7a), (0xe9, 0xe9), (0x2019, 0x2019)]
PLAIN = [(0x30, 0x39), (0x41, 0x5a), (0x61, 0x7a), (0xe9, 0xe9), (0x2019, 0x2019)]

def setup():
    global M
    bookmaker.setup()
    from BibleOrgSys.Formats import OpenSongXMLBible, ZefaniaXMLBible, HaggaiXMLBible, VerseViewXMLBible, USXXMLBibleBook, USFXXMLBible
    from BibleOrgSys.Reference import BibleOrganisationalSystems, BibleBookOrders, BibleBooksNames, BibleVersificationSystems, BiblePunctuationSystems
    M = {'opensong': OpenSongXMLBible.OpenSongXMLBible, 'zefania': ZefaniaXMLBible.ZefaniaXMLBible, 'haggai': HaggaiXMLBible.HaggaiXMLBible,
         'verseview': VerseViewXMLBible.VerseViewXMLBible, 'usx': USXXMLBibleBook.USXXMLBibleBook, 'usfx': USFXXMLBible.USFXXMLBible}

def esc(sx, s):
    return s.replace('&', '&amp;').replace('<', '&lt;')

BOOKS = ('GEN', 'EXO', 'PSA', 'JDE')
NAMES = {'GEN': 'Genesis', 'EXO': 'Exodus', 'PSA': 'Psalms', 'JDE': 'Jude'}
NUMBERS = {'GEN': 1, 'EXO': 2, 'PSA': 19, 'JDE': 65}
class File:
    """The elements of the file, and the lines expected for them.  want: {BBB: [(marker, text)]}"""
    def __init__(self, sx, fmt, pretty):
        self.sx = sx; self.fmt = fmt; self.pretty = pretty; self.n = 0; self.special = None
        self.out = []; self.want = {}; self.bookNr = -1; self.c = self.v = 0; self.open = []; self.depth = 1
    def text(self, lo=2, hi=2, dom=None):
        self.n += 1
        return self.sx.string('t%d' % self.n, lo, hi, dom or (T if self.n == self.special else PLAIN))
    @property
    def BBB(self): return BOOKS[self.bookNr]
    def put(self, m, t=''): self.want[self.BBB].append((m, t))
    def raw(self, s): self.out.append(('  ' * (self.depth + len(self.open)) if self.pretty else '') + s)
    def start(self, tag, attr=''): self.raw('<%s%s>' % (tag, attr)); self.open.append(tag)
    def end(self):
        t = self.open.pop(); self.raw('</%s>' % t)
    def closeTo(self, tag):
        while self.open and self.open[-1] != tag: self.end()
    BOOK = {'opensong': 'b', 'zefania': 'BIBLEBOOK', 'haggai': 'BIBLEBOOK', 'verseview': 'b'}
    CH = {'opensong': ('c', 'n'), 'zefania': ('CHAPTER', 'cnumber'), 'haggai': ('CHAPTER', 'cnumber'), 'verseview': ('c', 'n')}
    VE = {'opensong': ('v', 'n'), 'zefania': ('VERS', 'vnumber'), 'haggai': ('VERSE', 'vnumber'), 'verseview': ('v', 'n')}
    def go(self, step):
        """The place of the next verse"""
        book, (ch, cn) = self.BOOK[self.fmt], self.CH[self.fmt]
        if step == 'book':
            self.closeTo(None)
            self.bookNr += 1 if self.fmt != 'verseview' or self.bookNr < 1 else 0
            self.c = 0; self.want[self.BBB] = []
            if self.fmt in ('opensong', 'verseview'): self.start(book, ' n="%s"' % NAMES[self.BBB])
            else: self.start(book, ' bnumber="%d" bname="%s"' % (NUMBERS[self.BBB], NAMES[self.BBB]))
            if self.fmt == 'opensong': self.put('h', NAMES[self.BBB]); self.put('mt1', NAMES[self.BBB])
            if self.fmt == 'haggai': a = self.text(); self.raw('<CAPTION>%s</CAPTION>' % esc(self.sx, a)); self.put('mt', a)
        if step in ('book', 'chapter', 'gapc'):
            self.c += 2 if step == 'gapc' else 1; self.v = 1
            self.closeTo(book); self.start(ch, ' %s="%d"' % (cn, self.c)); self.put('c', str(self.c))
            if self.fmt == 'haggai': self.start('PARAGRAPH'); self.put('p')
        elif step == 'para': self.closeTo(ch); self.start('PARAGRAPH'); self.put('p'); self.v += 1
        elif step == 'gap': self.v += 2
        else: self.v += 1
    def add(self, step, shape):
        self.go(step)
        tag, attr = self.VE[self.fmt]; extra = ''; n = str(self.v)
        a, b, c = self.text(1, 1), self.text(), self.text(1, 1); e = lambda x: esc(self.sx, x)
        A, B, C = e(a), e(b), e(c)
        lines = None; raw = B; out = b
        if shape == 'bridge': n = '%d-%d' % (self.v, self.v + 2); extra = ' t="%d"' % (self.v + 2) if self.fmt == 'opensong' else ' enumber="%d"' % (self.v + 2); self.v += 2
        elif shape == 'wrapped': raw = A + '\n      ' + B; out = a + ' ' + b
        elif shape == 'i': raw = '%s <i>%s</i> %s' % (A, B, C); out = '%s \\it %s\\it* %s' % (a, b, c)
        elif shape == 'i end': raw = '%s <i>%s</i>' % (A, B); out = '%s \\it %s\\it*' % (a, b)
        elif shape == 'i i': raw = '<i>%s</i> %s <i>%s</i>' % (A, B, C); out = '\\it %s\\it* %s \\it %s\\it*' % (a, b, c)
        elif shape == 'poetry': raw = '%s\n%s\n%s' % (A, B, C); lines = [('q1', ''), ('v', n + ' ' + a), ('q1', b), ('q1', c)]
        elif shape in STYLES.get(self.fmt, ()):
            at, m = STYLES[self.fmt][shape]; raw = '%s <STYLE %s>%s</STYLE> %s' % (A, at, B, C); out = '%s \\%s %s\\%s* %s' % (a, m, b, m, c)
        elif shape == 'style empty': at, m = STYLES[self.fmt]['style1']; raw = '%s <STYLE %s></STYLE> %s' % (A, at, C); out = '%s \\%s \\%s* %s' % (a, m, m, c)
        elif shape == 'style start':
            at, m = self.sx.choice('st%d' % self.n, tuple(STYLES[self.fmt].values())); raw = '<STYLE %s>%s</STYLE> %s' % (at, B, C); out = '\\%s %s\\%s* %s' % (m, b, m, c)
        elif shape == 'styles':
            (at, m), (at2, m2) = list(STYLES[self.fmt].values())[:2]; d = self.text(1, 1)
            raw = '%s <STYLE %s>%s</STYLE> %s <STYLE %s>%s</STYLE>' % (A, at, B, C, at2, e(d)); out = '%s \\%s %s\\%s* %s \\%s %s\\%s*' % (a, m, b, m, c, m2, d, m2)
        elif shape == 'note':
            if self.fmt == 'zefania': raw = '%s<NOTE type="x-studynote">%s</NOTE> %s' % (A, B, C); out = '%s %s' % (a, c)
            else: raw = '%s<NOTE>%s</NOTE> %s' % (A, B, C); out = '%s\\f + \\ft %s\\f* %s' % (a, b, c)
        elif shape == 'note start':
            if self.fmt == 'zefania': raw = '<NOTE type="n-studynote">%s</NOTE>%s' % (B, C); out = c
            else: raw = '<NOTE type="variant">%s</NOTE>%s' % (B, C); out = '\\f + \\fk variant \\ft %s\\f*%s' % (b, c)
        elif shape == 'div': raw = '%s<DIV><NOTE>%s</NOTE></DIV>' % (A, B); out = '%s\\f %s\\f*' % (a, b)
        elif shape == 'gr': s = self.sx.choice('g%d' % self.n, ('1', '3056')); raw = '%s <gr str="%s">%s</gr> %s' % (A, s, B, C); out = '%s \\w %s|strong="G%s"\\w* %s' % (a, b, s, c)
        elif shape == 'br': raw = '%s<BR art="x-nl"/>%s' % (A, B); lines = [('v', n + ' ' + a), ('m', b)]
        elif shape == 'br end': raw = '%s<BR art="x-nl"/>' % B; lines = [('v', n + ' ' + b), ('m', '')]
        elif shape == 'br br': raw = '%s<BR art="x-nl"/>%s<BR art="x-nl"/>%s' % (A, B, C); lines = [('v', n + ' ' + a), ('m', b), ('m', c)]
        elif shape == 'br start': raw = '<BR art="x-nl"/>%s' % B; lines = [('m', ''), ('v', n + ' ' + b)]
        elif shape == 'br style':
            at, m = STYLES[self.fmt]['style1']; raw = '%s<BR art="x-nl"/>%s <STYLE %s>%s</STYLE>' % (A, B, at, C); lines = [('v', n + ' ' + a), ('m', '%s \\%s %s\\%s*' % (b, m, c, m))]
        elif shape == 'style br':
            at, m = STYLES[self.fmt]['style1']; raw = '%s <STYLE %s>%s</STYLE><BR art="x-nl"/>%s' % (A, at, B, C); lines = [('v', '%s %s \\%s %s\\%s*' % (n, a, m, b, m)), ('m', c)]
        elif shape == 'caption': self.raw('<CAPTION vref="1">%s</CAPTION>' % A); lines = [('v', '0 ' + a), ('v', n + ' ' + b)]
        elif shape == 'empty': raw = ''; lines = []
        self.raw('<%s %s="%d"%s>%s</%s>' % (tag, attr, int(n.split('-')[0]), extra, raw, tag))
        for m, t in (lines if lines is not None else [('v', n + ' ' + out)]): self.put(m, t)

CSS = {'style1': ('css="font-style:italic"', 'it'), 'style2': ('css="color:#FF0000"', 'em'), 'style3': ('css="font-style:italic;font-weight:bold"', 'bdit'), 'style4': ('id="cl:divineName"', 'nd'), 'style5': ('css="font-size: x-small; color:#8B8378"', 'add'), 'style6': ('css="font-style:italic;"', 'it')}
STYLES = {'zefania': CSS, 'haggai': {'style1': ('fs="emphasis"', 'em'), 'style2': ('fs="super"', 'bdit')}}
ROOT = {'opensong': ('bible', ''), 'zefania': ('XMLBIBLE', ' biblename="Test"'), 'haggai': ('XMLBIBLE', ' biblename="Test"'), 'verseview': ('bible', '')}
INFO = {'verseview': ['<fname>x</fname>', '<revision>1</revision>', '<title>Test</title>', '<font>x</font>', '<copyright>y</copyright>', '<sizefactor>1</sizefactor>']}
def document(f):
    root, attr = ROOT[f.fmt]
    f.closeTo(None)
    lines = ['<%s%s>' % (root, attr)] + INFO.get(f.fmt, []) + f.out + ['</%s>' % root]
    return ['<?xml version="1.0" encoding="utf-8"?>'] + (lines if f.pretty else join(lines))
def join(parts):
    """The parts on as few lines as may be"""
    s = parts[0]
    for x in parts[1:]: s = s + x
    return s.split('\n')

def compare(sx, C, f):
    got = [b.BBB for b in C]
    sx.check(got == list(f.want), 'the books of the file')
    for BBB, lines in f.want.items(): compareBook(sx, C.books[BBB], lines)
def compareBook(sx, new, lines, squash=False):
    new.processLines() if not new._processedFlag else None
    want = bookmaker.content(bookmaker.entries(bookmaker.book(lines, new.BBB, new.objectTypeString)))
    have = [e for e in bookmaker.content(bookmaker.entries(new)) if e.getMarker() != 'id']
    sx.check(len(have) == len(want), 'as many entries')
    for x, y in zip(want, have):
        sx.check(x.getMarker() == y.getMarker(), 'the markers')
        a, b = ' '.join((x.getFullText() or '').split()), ' '.join((y.getFullText() or '').split())
        if squash: a, b = ''.join(a.split()), ''.join(b.split())
        sx.check(sx.same(a, b), 'the texts')

def simple(sx, fmt, shapes, moves, pretty, special=None):
    f = File(sx, fmt, pretty); f.special = special
    for i, s in enumerate(shapes):
        m = 'book' if i == 0 else moves[i - 1]
        if isinstance(m, tuple): m = sx.choice('m%d' % i, m)
        if isinstance(s, tuple): s = sx.choice('s%d' % i, s)
        if s == 'caption' and m not in ('book', 'chapter', 'gapc'): s = 'plain'
        f.add(m, s)
    path = sx.file('x.xml', document(f))
    C = M[fmt](os.path.dirname(path), 'x.xml')
    q = sx.attempt(C.load)
    sx.check(q.ok, 'the file is loaded')
    compare(sx, C, f)

class Node:
    def __init__(self, tag, attr='', *kids): self.tag = tag; self.attr = attr; self.kids = list(kids)
    def write(self, layout, depth=1):
        """Layouts: compact, pretty (children on lines of their own until there is text)"""
        a = '<%s%s' % (self.tag, (' ' + self.attr) if self.attr else '')
        if not self.kids: return a + ('/>' if layout == 'compact' else ' />')
        out = a + '>'; mixed = layout == 'compact'
        for k in self.kids:
            if isinstance(k, Node):
                if not mixed: out = out + '\n' + '  ' * depth
                out = out + k.write(layout, depth + 1)
            else: out = out + k; mixed = True
        if not mixed: out = out + '\n' + '  ' * (depth - 1)
        return out + '</%s>' % self.tag

class USX:
    """A book in USX: paragraphs, with what is expected of them"""
    def __init__(self, sx, version): self.sx = sx; self.version = version; self.n = 0; self.special = None; self.root = []; self.para = None; self.want = []; self.c = self.v = 0; self.vs = self.cs = None
    text = File.text
    sid = property(lambda self: self.version == '3.0')
    def put(self, m, t=''): self.want.append((m, t))
    def more(self, t):
        m, x = self.want[-1]; self.want[-1] = (m, x + t)
    def endVerse(self):
        if self.sid and self.vs is not None: self.inner(Node('verse', 'eid="GEN %d:%s"' % (self.c, self.vs)))
        self.vs = None
    def inner(self, *k): self.para.kids += k
    def chapter(self, attr='', extra=()):
        self.endVerse()
        if self.sid and self.c: self.root.append(Node('chapter', 'eid="GEN %d"' % self.c))
        self.c += 1; self.v = 0; self.para = None
        self.root.append(Node('chapter', 'number="%d" style="c"%s%s' % (self.c, attr, ' sid="GEN %d"' % self.c if self.sid else '')))
        self.put('c', str(self.c))
        for m, t in extra: self.put(m, t)
    def newPara(self, style, t=None, close=False):
        if close: self.endVerse()
        vid = ' vid="GEN %d:%s"' % (self.c, self.vs) if self.sid and self.vs else ''
        self.para = Node('para', 'style="%s"%s' % (style, vid)); self.root.append(self.para); self.put(style, '')
        if t is not None: self.inner(esc(self.sx, t)); self.more(t)
    def verse(self, attr='', number=None, post=''):
        if self.para is None: self.newPara('p')
        self.endVerse(); self.v += 1; n = number or str(self.v); self.vs = n
        self.inner(Node('verse', 'number="%s" style="v"%s%s' % (n, attr, ' sid="GEN %d:%s"' % (self.c, n) if self.sid else '')))
        self.put('v', n + post + ' ')
    def say(self, t): self.inner(esc(self.sx, t)); self.more(t)
    def char(self, style, *kids, attr=''): return Node('char', 'style="%s"%s' % (style, attr), *kids)
    def note(self, kind, t, after=''):
        E = esc(self.sx, t); closed = self.sx.choice('cl%d' % self.n, ('', ' closed="false"'))
        a, b = ('fr', 'ft') if kind == 'f' else ('xo', 'xt')
        self.inner(Node('note', 'style="%s" caller="+"' % kind, self.char(a, '1:1 ', attr=closed), self.char(b, E, attr=closed)))
        self.more('\\%s + \\%s 1:1 \\%s %s\\%s*' % (kind, a, b, t, kind))
        if after: self.say(after)
    def step(self, k):
        t = self.text; E = lambda x: esc(self.sx, x)
        if k in ('plain', 'bridge', 'altered', 'empty', 'char', 'chars', 'nested', 'charEnd', 'f', 'x', 'ff', 'fEnd', 'ref', 'refOnly', 'optbreak', 'unmatched', 'noteInChar', 'charNote'): 
            if k == 'bridge': self.v += 1; self.verse(number='%d-%d' % (self.v, self.v + 1))
            elif k == 'altered': self.verse(attr=' altnumber="%d"' % (self.v + 2), post=' \\va %d\\va*' % (self.v + 2))
            else: self.verse()
            a, b, c = t(1, 1), t(), t(1, 1)
            if k in ('plain', 'bridge', 'altered'): self.say(b)
            elif k == 'char': m = self.sx.choice('ch%d' % self.n, ('add', 'nd', 'wj', 'qs', 'it', 'bk', 'tl')); self.say(a + ' '); self.inner(self.char(m, E(b)), ' ' + E(c)); self.more('\\%s %s\\%s* %s' % (m, b, m, c))
            elif k == 'chars': self.inner(self.char('nd', E(a)), ' ' + E(b) + ' ', self.char('add', E(c))); self.more('\\nd %s\\nd* %s \\add %s\\add*' % (a, b, c))
            elif k == 'nested':
                s1, s2 = self.sx.choice('ns%d' % self.n, ((' ', ' '), ('', ''), (' ', ''), ('', ' ')))
                self.inner(self.char('wj', E(a) + s1, self.char('nd', E(b)), s2 + E(c))); self.more('\\wj %s%s\\nd %s\\nd*%s%s\\wj*' % (a, s1, b, s2, c))
            elif k == 'charEnd': self.say(a + ' '); self.inner(self.char('add', E(b))); self.more('\\add %s\\add*' % b)
            elif k == 'f' or k == 'x': self.say(a); self.note(k, b, ' ' + c)
            elif k == 'ff': self.say(a); self.note('f', b, ' ' + c); self.note('x', t(1, 1))
            elif k == 'fEnd': self.note('f', b)
            elif k == 'ref': self.say(a + ' '); self.inner(Node('ref', 'loc="GEN 1:3"', E(b)), ' ' + E(c)); self.more('%s %s' % (b, c))
            elif k == 'refOnly': self.inner(Node('ref', 'loc="GEN 1:3"', E(b))); self.more(b)
            elif k == 'optbreak': self.say(a); self.inner(Node('optbreak'), E(b)); self.more('//' + b)
            elif k == 'unmatched': self.say(a); self.inner(Node('unmatched', 'marker="f*"'), E(b)); self.more(b)
            elif k == 'noteInChar': self.inner(self.char('wj', E(a), Node('note', 'style="f" caller="+"', self.char('ft', E(b))), ' ' + E(c))); self.more('\\wj %s\\f + \\ft %s\\f* %s\\wj*' % (a, b, c))
            elif k == 'charNote': self.inner(self.char('nd', E(a))); self.more('\\nd %s\\nd*' % a); self.note('f', b, c)
        elif k == 'c': self.chapter()
        elif k == 'cp': self.chapter(' pubnumber="A"', [('cp', 'A')])
        elif k in ('s1', 'ms1', 'r', 'd'): self.newPara(k, t(), close=True); self.para = None
        elif k == 's1c': a, b = t(1, 1), t(); self.newPara('s1', a + ' ', close=True); self.inner(self.char('nd', E(b))); self.more('\\nd %s\\nd*' % b); self.para = None
        elif k == 'sf': self.newPara('s1', t(1, 1), close=True); self.note('f', t()); self.para = None
        elif k == 'b': self.newPara('b', close=True); self.para = None
        elif k == 'ptext': self.newPara('q2', t())
        elif k == 'pchar': a, b = t(1, 1), t(); self.newPara('q2'); self.inner(self.char('add', E(a)), ' ' + E(b)); self.more('\\add %s\\add* %s' % (a, b))
        elif k == 'p/': self.newPara('p', close=True)
        elif k == 'q1/': self.newPara('q1', close=True)
        elif k == 'tr':
            self.endVerse(); self.para = None; a, b = t(1, 1), t()
            self.root.append(Node('table', '', Node('row', 'style="tr"', Node('cell', 'style="tc1" align="start"', E(a) + ' '), Node('cell', 'style="tc2" align="start"', E(b))))); self.put('tr', '\\tc1 %s \\tc2 %s' % (a, b))
        elif k == 'trs':
            self.endVerse(); self.para = None; a, b, c, d = t(1, 1), t(), t(1, 1), t(1, 1)
            cell = Node('cell', 'style="tc2" align="start"', E(b)); rows = [Node('row', 'style="tr"', Node('cell', 'style="th1" align="start"', E(a) + ' ', self.char('nd', E(d))), cell), Node('row', 'style="tr"', Node('cell', 'style="tcr1" align="end"', E(c) + ' '))]
            self.root.append(Node('table', '', *rows)); self.para = cell; self.put('tr', '\\th1 %s \\nd %s\\nd*\\tc2 %s' % (a, d, b)); self.note('f', t(1, 1)); self.para = None; self.put('tr', '\\tcr1 %s' % c)
    def intro(self):
        t = self.text
        for s in ('h', 'toc1', 'mt1', 'is1', 'ip'): self.newPara(s, t(1, 1))
        self.para = None

def usx(sx, steps, version, layout, intro=True, special=None):
    u = USX(sx, version); u.special = special
    if intro: u.intro()
    u.chapter()
    for i, k in enumerate(steps):
        if isinstance(k, tuple): k = sx.choice('k%d' % i, k)
        u.step(k)
    u.endVerse() if u.para is not None else None
    if u.sid: u.root.append(Node('chapter', 'eid="GEN %d"' % u.c))
    root = Node('usx', 'version="%s"' % version if version else '', Node('book', 'code="GEN" style="id"', 'Test'), *u.root)
    doc = root.write(layout)
    path = sx.file('GEN.usx', ['<?xml version="1.0" encoding="utf-8"?>'] + doc.split('\n'))
    b = M['usx']('test', 'GEN')
    q = sx.attempt(b.load, 'GEN.usx', os.path.dirname(path))
    sx.check(q.ok, 'the file is loaded')
    compareNotes(sx, b, u.want)
def compareNotes(sx, b, lines, loose=False):
    """Also the notes.  loose: white space does not matter, notes may have more in them"""
    b.processLines() if not b._processedFlag else None
    want = bookmaker.content(bookmaker.entries(bookmaker.book(lines, b.BBB, b.objectTypeString)))
    have = [e for e in bookmaker.content(bookmaker.entries(b)) if e.getMarker() != 'id']
    sx.check([e.getMarker() for e in have] == [e.getMarker() for e in want], 'the markers')
    f = squash if loose else norm
    for x, y in zip(want, have):
        sx.check(sx.same(f(x.getCleanText()), f(y.getCleanText())), 'the texts')
        sx.check(sx.same(f(x.getAdjustedText()), f(y.getAdjustedText())), 'the texts with their character markers')
        p, q = x.getExtras() or [], y.getExtras() or []
        sx.check([n.getType() for n in p] == [n.getType() for n in q], 'the notes')
        for m, n in zip(p, q):
            m, n = f(m.getCleanText()), f(n.getCleanText())
            sx.check(n.startswith(m) if loose else sx.same(m, n), 'the texts of the notes')
def squash(s): return ''.join((s or '').split())
def norm(s): return ' '.join((s or '').split())

INVERSE = ('plain', 'bridge', 'altered', 'empty', 'char', 'chars', 'nested', 'charEnd', 'f', 'x', 'ff', 'fEnd', 'ref', 'refOnly', 'optbreak', 'unmatched', 'noteInChar', 'charNote')
AFTER = ('c', 'cp', 's1', 's1c', 'sf', 'ms1', 'r', 'b', 'ptext', 'pchar', 'p/', 'q1/', 'plain', 'tr', 'trs')

class USFX:
    """Books in USFX"""
    text = File.text
    def __init__(self, sx): self.sx = sx; self.n = 0; self.special = None; self.root = []; self.want = {}; self.nr = -1; self.loose = {}
    BBB = File.BBB
    bookNr = property(lambda self: self.nr)
    def put(self, m, t=''): self.want[self.BBB].append((m, t))
    def more(self, t): w = self.want[self.BBB]; m, x = w[-1]; w[-1] = (m, x + ' ' + t)
    def book(self):
        self.nr += 1; self.want[self.BBB] = []; self.c = 0
        code = {'GEN': 'GEN', 'EXO': 'EXO', 'PSA': 'PSA', 'JDE': 'JUD'}[self.BBB]; t = self.text
        self.node = Node('book', 'id="%s"' % code, Node('id', 'id="%s"' % code, 'Test')); self.root.append(self.node)
        a, b = t(1, 1), t(1, 1); self.node.kids += [Node('h', '', esc(self.sx, a)), Node('toc', 'level="1"', esc(self.sx, b))]; self.put('h', a); self.put('toc1', b); self.para = None
        a = t(); self.node.kids.append(Node('p', 'sfm="mt" level="1"', esc(self.sx, a))); self.put('mt1', a)
        self.chapter()
    def chapter(self): self.c += 1; self.v = 0; self.node.kids.append(Node('c', 'id="%d"' % self.c)); self.put('c', str(self.c)); self.para = None
    def newPara(self, tag, attr, style, t=None):
        self.para = Node(tag, attr); self.node.kids.append(self.para); self.put(style, '')
        if t is not None: self.para.kids.append(esc(self.sx, t)); self.want[self.BBB][-1] = (style, t)
    def verse(self, number=None):
        if self.para is None: self.newPara('p', '', 'p')
        self.v += 1; n = number or str(self.v)
        self.para.kids.append(Node('v', 'id="%s"' % n)); self.put('v', n)
    def inner(self, t, *k): self.para.kids += k; self.more(t)
    def note(self, tag, b, ref=None):
        x, y = ('fr', 'ft') if tag == 'f' else ('xo', 'xt')
        body = Node(y, '', esc(self.sx, b)) if ref is None else Node(y, '', Node('ref', 'tgt="EXO.3.1"', esc(self.sx, b)))
        self.inner('\\%s + \\%s 1:1 \\%s %s\\%s*' % (tag, x, y, b, tag), Node(tag, 'caller="+"', Node(x, '', '1:1 '), body))
    def step(self, k):
        t = self.text; E = lambda x: esc(self.sx, x)
        if k in ('plain', 'bridge', 'empty', 'char', 'chars', 'w', 'addw', 'f', 'x', 'ff', 'xref', 'fref', 'noteStart', 'optional', 'outside', 'gw'):
            a, b, c = t(1, 1), t(), t(1, 1)
            if k == 'bridge': self.v += 1; self.verse('%d-%d' % (self.v, self.v + 1))
            elif k == 'outside': self.v += 1; self.node.kids += [Node('v', 'id="%d"' % self.v), E(b)]; self.put('v', '%d %s' % (self.v, b)); self.para = None; return
            else: self.verse()
            P = self.para.kids
            if k in ('plain', 'bridge'): self.inner(b, E(b))
            elif k == 'char': m = self.sx.choice('ch%d' % self.n, ('add', 'nd', 'wj', 'qs', 'it', 'bk', 'tl')); self.inner('%s \\%s %s\\%s* %s' % (a, m, b, m, c), E(a) + ' ', Node(m, '', E(b)), ' ' + E(c))
            elif k == 'chars': self.inner('\\nd %s\\nd* %s \\add %s\\add*' % (a, b, c), Node('nd', '', E(a)), ' ' + E(b) + ' ', Node('add', '', E(c)))
            elif k == 'w': self.inner('%s \\w \\str G5\\str* %s\\w* %s' % (a, b, c), E(a) + ' ', Node('w', 's="G5"', E(b)), ' ' + E(c))
            elif k == 'addw': self.inner('%s \\add \\w \\str G5\\str* %s\\w*\\add* %s' % (a, b, c), E(a) + ' ', Node('add', '', Node('w', 's="G5"', E(b))), ' ' + E(c))
            elif k in ('f', 'x'): self.inner(a, E(a)); self.note(k, b); self.inner(c, ' ' + E(c))
            elif k == 'ff': self.inner(a, E(a)); self.note('f', b); self.inner(c, ' ' + E(c)); self.note('x', t(1, 1))
            elif k == 'noteStart': self.note('x', b); self.inner(c, E(c))
            elif k == 'optional': self.inner(a + '//', E(a), Node('optionalLineBreak'))
            elif k == 'gw': self.inner('%s \\w %s\\w* %s' % (a, b, c), E(a) + ' ', Node('gw', 'sfm="w" root="x"', E(b)), ' ' + E(c))
            else: self.inner(a, E(a)); self.note('x' if k == 'xref' else 'f', b, True); self.inner(c, ' ' + E(c)); self.loose[(self.BBB, len(self.want[self.BBB]) - 1)] = 1
            if self.sx.choice('ve%d' % self.n, (True, False)) if k in ('plain', 'f') else True: self.para.kids.append(Node('ve'))
        elif k == 'c': self.chapter()
        elif k == 'book': self.book()
        elif k == 's': a = t(); self.node.kids.append(Node('s', 'level="1"', E(a))); self.put('s1', a); self.para = None
        elif k == 'sf': a = t(1, 1); self.para = Node('s', '', E(a)); self.node.kids.append(self.para); self.put('s', a); self.note('f', t()); self.para = None
        elif k == 'd': a = t(); self.node.kids.append(Node('d', '', E(a))); self.put('d', a); self.para = None
        elif k == 'b': self.node.kids.append(Node('b')); self.put('b'); self.para = None
        elif k == 'rem': a = t(); self.node.kids.append(Node('rem', '', E(a))); self.put('rem', a); self.para = None
        elif k == 'q': self.newPara('q', 'level="2"', 'q2')
        elif k == 'qt': self.newPara('q', '', 'q', t())
        elif k == 'sfm': self.newPara('p', 'sfm="pi" level="1"', 'pi1')
        elif k == 'p/': self.newPara('p', '', 'p')
        elif k == 'pchar': a, b = t(1, 1), t(); self.newPara('q', 'level="1"', 'q1'); self.inner('\\add %s\\add* %s' % (a, b), Node('add', '', E(a)), ' ' + E(b))

def usfx(sx, steps, layout, special=None):
    u = USFX(sx); u.special = special; u.book()
    for i, k in enumerate(steps):
        if isinstance(k, tuple): k = sx.choice('k%d' % i, k)
        u.step(k)
    doc = Node('usfx', 'xmlns:ns0="http://www.w3.org/2001/XMLSchema-instance" ns0:noNamespaceSchemaLocation="usfx.xsd"', Node('languageCode', '', 'eng'), *u.root).write(layout)
    sx.scratchDir()
    path = sx.file('dir/x.xml', ['<?xml version="1.0" encoding="utf-8"?>'] + doc.split('\n'))
    C = M['usfx'](os.path.dirname(path), 'test')
    q = sx.attempt(C.load)
    sx.check(q.ok, 'the file is loaded')
    sx.check([b.BBB for b in C] == list(u.want), 'the books of the file')
    for BBB in u.want: compareNotes(sx, C.books[BBB], u.want[BBB], True)

USFXSHAPES = ('plain', 'bridge', 'empty', 'char', 'chars', 'w', 'addw', 'f', 'x', 'ff', 'xref', 'fref', 'noteStart', 'optional', 'outside', 'gw')
USFXAFTER = ('c', 'book', 's', 'sf', 'd', 'b', 'rem', 'q', 'qt', 'sfm', 'p/', 'pchar', 'plain')

SHAPES = {'opensong': ('plain', 'i', 'i end', 'i i', 'poetry', 'bridge', 'empty'), 'verseview': ('plain', 'empty'),
          'zefania': ('plain', 'bridge', 'wrapped', 'style start', 'style empty', 'styles', 'note', 'note start', 'div', 'gr', 'br', 'br end', 'br br', 'br start', 'br style', 'style br', 'caption', 'empty') + tuple(CSS),
          'haggai': ('plain', 'bridge', 'wrapped', 'style1', 'style2', 'style start', 'style empty', 'styles', 'note', 'note start', 'br', 'br end', 'br br', 'br start', 'br style', 'style br', 'empty')}
MOVES = ('next', 'gap', 'chapter', 'gapc', 'book')
def cases(tier):
    out = []
    for fmt, S in SHAPES.items():
        mv = MOVES + (('para',) if fmt == 'haggai' else ())
        if fmt == 'verseview': mv = ('next', 'gap', 'chapter', 'gapc')
        for p in (True, False):
            n = '%s %s ' % (fmt, 'pretty' if p else 'compact')
            out += [(n + 'shapes', simple, dict(fmt=fmt, shapes=(S, 'plain'), moves=(('next', 'chapter'),), pretty=p)),
                    (n + 'places', simple, dict(fmt=fmt, shapes=('plain',) * 3, moves=(mv,) * 2, pretty=p)),
                    (n + 'characters', simple, dict(fmt=fmt, shapes=('plain',), moves=(), pretty=p, special=2 if fmt != 'haggai' else 3))]
            if tier == 'thorough':
                out += [(n + 'pairs', simple, dict(fmt=fmt, shapes=(S, S), moves=(('next', 'gapc'),), pretty=p)),
                        (n + 'more places', simple, dict(fmt=fmt, shapes=('plain',) * 4, moves=(mv,) * 3, pretty=p)),
                        (n + 'characters anywhere', simple, dict(fmt=fmt, shapes=(S,), moves=(), pretty=p, special=1 if fmt != 'haggai' else 2))]
    for version, layout in (('3.0', 'pretty'), ('3.0', 'compact'), ('2.0', 'pretty')) + ((('2.6', 'compact'), ('2.5', 'pretty')) if tier == 'thorough' else ()):
        n = 'usx %s %s ' % (version, layout)
        out += [(n + 'verses', usx, dict(steps=('p/', INVERSE, 'plain'), version=version, layout=layout, intro=False)),
                (n + 'paragraphs', usx, dict(steps=(('p/', 'q1/', 's1'), 'plain', AFTER, ('plain', 'p/'), 'plain'), version=version, layout=layout)),
                (n + 'characters', usx, dict(steps=('p/', 'f'), version=version, layout=layout, intro=False, special=2))]
        if tier == 'thorough':
            out += [(n + 'pairs', usx, dict(steps=('p/', INVERSE, INVERSE), version=version, layout=layout, intro=False)),
                    (n + 'paragraph pairs', usx, dict(steps=('plain', AFTER, AFTER, 'plain'), version=version, layout=layout, intro=False))]
    for layout in ('compact', 'pretty'):
        n = 'usfx %s ' % layout
        out += [(n + 'verses', usfx, dict(steps=('p/', USFXSHAPES, 'plain'), layout=layout)),
                (n + 'paragraphs', usfx, dict(steps=('plain', USFXAFTER, 'plain'), layout=layout)),
                (n + 'characters', usfx, dict(steps=('p/', 'f'), layout=layout, special=5))]
        if tier == 'thorough':
            out += [(n + 'pairs', usfx, dict(steps=('p/', USFXSHAPES, USFXSHAPES), layout=layout)),
                    (n + 'paragraph pairs', usfx, dict(steps=('plain', USFXAFTER, USFXAFTER, 'plain'), layout=layout))]
    return out
