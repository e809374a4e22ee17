"""P39: reading Bibles in OSIS keeps every verse, at its place, with its whole text."""
import os
from harness import common, bookmaker
from harness.xmlimports import Node as Element, T, PLAIN, esc
PROPERTY = 'P39'
ASSUMPTIONS = ['well-formed UTF-8 files with the elements and attributes the reader knows in the places it knows them', 'books, chapters and verses in order; no backslashes in the texts', 'the XML parser of the engine reads the files while texts are symbolic (replays use xml.etree.ElementTree)']
OUTSIDE = 'the amount of white space, and white space in notes; quotations (q), tables, readings, abbreviations, items of lists which start with an element; milestones in paragraphs; text between the end milestone of a verse and the next start; lists of verse numbers; elements in places where the reader does not know them (reported); books which change inside of a div; the header, the work details; references and words as note contents'

def setup():
    global OSIS
    bookmaker.setup()
    from BibleOrgSys.Formats.OSISXMLBible import OSISXMLBible as OSIS
    from BibleOrgSys.Reference import BibleOrganisationalSystems, BibleBookOrders, BibleBooksNames, BibleVersificationSystems, BiblePunctuationSystems

class Node(Element):
    """Only blocks are indented"""
    def write(self, layout, depth=1): return super().write(layout if self.tag in ('div', 'chapter', 'p', 'lg', 'l') else 'compact', depth)

NS = 'xmlns="http://www.bibletechnologies.net/2003/OSIS/namespace"'
CODES = {'GEN': ('Gen', 'Gen'), 'EXO': ('Exod', 'Exo'), 'PSA': ('Ps', 'Psa'), 'JN1': ('1John', '1Jn'), 'JDE': ('Jude', 'Jud')}
HI = {'italic': 'it', 'bold': 'bd', 'emphasis': 'em', 'small-caps': 'sc', 'super': 'ord', 'normal': 'no', 'underline': None}

INLINE = ('plain', 'hi', 'w', 'w2', 'w more', 'w nd', 'add w', 'note', 'xnote', 'catch', 'nd')
SHAPES = {'p': INLINE + ('note end', 'note start', 'notes', 'add', 'name', 'foreign', 'book', 'reference', 'lb', 'bridge', 'two', 'type', 'void', 'poem', 'poem back', 'poem more', 'poem note', 'poem first'),
          'l': ('plain', 'hi', 'w', 'w2', 'note', 'xnote', 'catch', 'nd', 'note end', 'bridge', 'two', 'w more', 'w nd'),
          'container': ('plain', 'hi', 'w', 'w2', 'note', 'xnote', 'nd', 'add', 'note end', 'w more', 'w nd', 'add w'),
          'chapter': ('plain', 'x-p in', 'w more', 'w nd', 'add w', 'w', 'w2', 'note', 'xnote', 'nd', 'add', 'note end')}

VERSES = {x for v in SHAPES.values() for x in v}
EMPTY = ('p', 'x-p', 'lg', 'l1', 'l2', 'typed')

WORDS = (('lemma="G1"', 'lemma="G1"'), ('morph="robinson:N"', 'x-morph="robinson:N"'), ('lemma="strong:G1" morph="robinson:N"', 'strong="G1" x-morph="robinson:N"'), ('lemma="strong:G1" src="5"', 'strong="G1" x-src="5"'), ('lemma="strong:G1 lemma.TR:a" morph="robinson:N" src="1"', 'strong="G1 lemma.TR:a" x-morph="robinson:N" x-src="1"'), ('lemma="strong:G1" type="x-split-1"', 'strong="G1" x-wType="x-split-1"'), ('gloss="x"', 'x-gloss="x"'), ('lemma="H1" n="1.1"', 'lemma="H1" x-cantillationLevel="1.1"'))
class Doc:
    """Books with what is expected of them.  style: how verses and chapters are written"""
    def __init__(self, sx, style): self.sx = sx; self.style = style; self.n = 0; self.special = None; self.books = []; self.want = {}; self.names = list(CODES); self.broken = 0
    def text(self, lo=1, hi=1):
        self.n += 1
        return self.sx.string('t%d' % self.n, lo, hi, T if self.n == self.special else PLAIN)
    def put(self, m, t=''): self.lines.append((m, t))
    def more(self, t): m, x = self.lines[-1]; self.lines[-1] = (m, x + t)
    def book(self, BBB=None):
        self.endVerse() if self.books else None
        self.BBB = BBB or self.names.pop(0); self.osis, usfm = CODES[self.BBB]
        self.div = self.here = Node('div', 'type="book" osisID="%s"' % self.osis); self.books.append(self.div)
        self.lines = self.want[self.BBB] = []; self.put('h', usfm); self.c = self.v = 0; self.open = None; self.para = None; self.section = None
    def mainTitle(self):
        t = self.text(); self.div.kids.append(Node('title', 'type="main"', esc(self.sx, t))); self.put('imt', t)
    def endVerse(self):
        if self.open and self.para is not None: self.para.kids.append(Node('verse', 'eID="%s"' % self.open))
        self.open = None
    def chapter(self):
        self.endVerse(); self.para = None
        if self.c and self.here.tag != 'chapter': self.here.kids.append(Node('chapter', 'eID="%s.%d"' % (self.osis, self.c)))
        self.c += 1; self.v = 0; i = '%s.%d' % (self.osis, self.c)
        if self.style in ('ms', 'lg'): self.here.kids.append(Node('chapter', 'osisID="%s" sID="%s"' % (i, i)))
        else: self.here = Node('chapter', 'osisID="%s"' % i); self.div.kids.append(self.here)
        self.put('c', str(self.c))
        if self.style in ('container', 'chapter'): self.para = self.here
    def typed(self):
        self.endVerse(); y = self.sx.choice('p%d' % self.n, ('pc', 'mi', 'pm', 'pmr', 'qm', 'qr', 'center'))
        self.para = Node('p', 'type="x-%s"' % y); self.here.kids.append(self.para); self.put('p' if y == 'center' else y)
    def p(self, t=False, keep=False):
        """A paragraph.  t: with text in it before the next verse"""
        if not keep: self.endVerse()
        self.para = Node('p'); self.here.kids.append(self.para); self.put('p')
        if t: t = self.text(); self.para.kids.append(esc(self.sx, t)); self.more(t)
    def lg(self): self.endVerse(); self.group = Node('lg'); self.here.kids.append(self.group); self.para = self.group
    def l(self, level):
        if self.para is None: self.lg()
        self.para = Node('l', 'level="%d"' % level if level > 1 else self.sx.choice('lv%d' % self.n, ('level="1"', ''))); self.group.kids.append(self.para); self.put('q%d' % level)
    def title(self, attr, m):
        if self.style != 'chapter': self.endVerse()
        t = self.text(); self.here.kids.append(Node('title', attr, esc(self.sx, t))); self.put(m, t)
        if self.style in ('ms', 'contp', 'lg'): self.para = None
    def sectionDiv(self):
        self.endVerse(); self.para = None
        t = self.text(); self.here = Node('div', 'type="section"', Node('title', '', esc(self.sx, t))); self.div.kids.append(self.here); self.put('s', t)
    def verse(self, shape):
        if self.para is None: self.p() if self.style != 'lg' else (self.lg(), self.l(1))
        self.endVerse(); self.v += 1; i = '%s.%d.%d' % (self.osis, self.c, self.v); n = str(self.v)
        if shape == 'bridge': self.v += 1; i += '-%s.%d.%d' % (self.osis, self.c, self.v); n += '-%d' % self.v
        if self.para is self.broken: self.put('m')
        self.broken = self.para if shape in ('poem', 'poem back', 'poem more', 'poem first') else None
        kids, lines = self.shape(shape)
        if shape == 'poem first': # The line comes before its verse
            if self.lines[-1][1] == '' and self.lines[-1][0] not in ('v', 'b'): self.lines.pop()
            self.put('q1')
        if self.style == 'container': self.para.kids.append(Node('verse', 'osisID="%s"' % i, *kids))
        else: self.para.kids += [Node('verse', 'osisID="%s" sID="%s"' % (i, i))] + kids; self.open = i
        self.put('v', n + ' ' + lines[0])
        for m, t in lines[1:]: self.put(m, t)
    def shape(self, k):
        """The contents of a verse, and the text for it, and lines after it"""
        a, b, c = self.text(), self.text(2, 2), self.text(); sx = self.sx; A, B, C = [esc(sx, x) for x in (a, b, c)]
        if k in ('plain', 'bridge'): return [B], [b]
        inner = {'nd': ('divineName', '', '\\nd %s\\nd*' % b), 'add': ('transChange', 'type="added"', '\\add %s\\add*' % b), 'name': ('name', '', '\\pn %s\\pn*' % b), 'foreign': ('foreign', '', '\\tl %s\\tl*' % b),
                 'w2': ('w', '', '\\w %s\\w*' % b), 'book': ('reference', 'type="x-bookName"', '\\bk %s\\bk*' % b), 'reference': ('reference', 'osisRef="Gen.1.1"', b)}
        if k in inner: tag, at, u = inner[k]; return [A + ' ', Node(tag, at, B), ' ' + C], ['%s %s %s' % (a, u, c)]
        if k == 'hi': h = sx.choice('hi%d' % self.n, tuple(HI)); m = HI[h]; return [A + ' ', Node('hi', 'type="%s"' % h, B), ' ' + C], ['%s \\%s %s\\%s* %s' % (a, m, b, m, c) if m else '%s %s %s' % (a, b, c)]
        if k == 'w': s = sx.choice('s%d' % self.n, ('H1', 'G3056')); return [A + ' ', Node('w', 'lemma="strong:%s"' % s, B), ' ' + C], ['%s \\w %s|strong="%s"\\w* %s' % (a, b, s, c)]
        if k == 'w more': at, u = sx.choice('m%d' % self.n, WORDS); return [A + ' ', Node('w', at, B), ' ' + C], ['%s \\w %s|%s\\w* %s' % (a, b, u, c)]
        if k == 'w nd': return [A + ' ', Node('w', 'lemma="strong:H1"', Node('divineName', '', B)), ' ' + C], ['%s \\w \\nd %s\\nd*|strong="H1"\\w* %s' % (a, b, c)]
        if k == 'add w': t, m = sx.choice('m%d' % self.n, (('transChange', 'add'), ('divineName', 'nd'))); return [A + ' ', Node(t, 'type="added"' if m == 'add' else '', Node('w', 'lemma="strong:H1"', B)), ' ' + C], ['%s \\%s \\w %s|strong="H1"\\w*\\%s* %s' % (a, m, b, m, c)]
        if k == 'x-p in': return [A, Node('milestone', 'type="x-p"'), B], [a, ('p', b)]
        if k == 'two': return [Node('w', 'lemma="strong:H1"', A), ' ', Node('divineName', '', B), ' ' + C], ['\\w %s|strong="H1"\\w* \\nd %s\\nd* %s' % (a, b, c)]
        note, out = Node('note', '', B), '\\f + \\ft %s\\f*' % b
        if k == 'note': s = sx.choice('n%d' % self.n, ('1', 'a', '*')); note.attr = 'n="%s"' % s; out = '\\f %s \\ft %s\\f*' % (s, b)
        if k == 'xnote': note.attr = 'type="crossReference"'; out = '\\x - \\xt %s\\x*' % b
        if k == 'catch': note.kids = [Node('catchWord', '', B), ' ' + C]; out = '\\f + \\fq %s\\fq* %s\\f*' % (b, c); return [A, note, ' ' + A], ['%s%s %s' % (a, out, a)]
        if k == 'type': note.attr = 'type="%s"' % sx.choice('y%d' % self.n, ('study', 'translation', 'variant', 'alternative', 'exegesis'))
        if k in ('note', 'xnote', 'type'): return [A, note, ' ' + C], ['%s%s %s' % (a, out, c)]
        if k == 'note end': return [A, note], [a + out]
        if k == 'note start': return [note, C], [out + c]
        if k == 'notes': return [A, note, ' ' + C, Node('note', 'type="crossReference"', C)], ['%s%s %s\\x - \\xt %s\\x*' % (a, out, c, c)]
        if k == 'lb': return [A, Node('lb'), B], [a, ('m', b)]
        if k == 'poem': return [A, Node('lg', '', Node('l', 'level="1"', B), Node('l', 'level="2"', C))], [a, ('q1', b), ('q2', c)]
        if k == 'poem back': return [A, Node('lg', '', Node('l', 'level="2"', B), Node('l', sx.choice('lv%d' % self.n, ('', 'level="1"')), C))], [a, ('q2', b), ('q1', c)]
        if k == 'poem more': return [A, Node('lg', '', Node('l', 'level="2"', B)), C], [a, ('q2', b), ('m', c)]
        if k == 'void': t, u = sx.choice('vo%d' % self.n, (('divineName', '\\nd \\nd*'), ('hi type="bold"', '\\bd \\bd*'), ('transChange type="added"', None))); return [A + ' ', Node(*t.split(' ', 1)), ' ' + C], ['%s %s %s' % (a, u or '\\add \\add*', c)]
        if k == 'poem note': return [A, Node('lg', '', Node('l', 'level="2"', B)), C, note], [a, ('q2', b), ('m', c + out)]
        if k == 'poem first': return [Node('lg', '', Node('l', 'level="1"', B), Node('l', 'level="2"', C))], [b, ('q2', c)]
        assert 0, k
    def step(self, k):
        if k == 'c': self.chapter()
        elif k == 'book': self.book(); self.chapter()
        elif k == 'p': self.p()
        elif k == 'p text': self.p(t=True)
        elif k == 'p middle': self.p(t=True, keep=True)
        elif k == 's': self.title('', 's')
        elif k == 's2': self.title('level="2"', 's2')
        elif k == 'sr': self.title('type="parallel"', 'sr')
        elif k == 'd': self.title('type="psalm" canonical="true"', 'd')
        elif k in ('s w', 's hi', 's note'):
            self.endVerse(); a, b, c = self.text(), self.text(), self.text(); A, B, C = [esc(self.sx, x) for x in (a, b, c)]
            if k == 's w': kids, out = [Node('w', 'lemma="strong:H1"', A), ' ' + B + ' ', Node('w', 'lemma="strong:H2"', C)], '\\w %s|strong="H1"\\w* %s \\w %s|strong="H2"\\w*' % (a, b, c)
            elif k == 's hi': kids, out = [A + ' ', Node('hi', 'type="italic"', B), ' ' + C], '%s \\it %s\\it* %s' % (a, b, c)
            else: kids, out = [A, Node('note', '', B), ' ' + C], '%s\\f + \\ft %s\\f* %s' % (a, b, c)
            self.here.kids.append(Node('title', 'type="psalm" canonical="true"', *kids)); self.put('d', out); self.para = None if self.style != 'container' else self.para
        elif k == 'typed': self.typed()
        elif k == 'x-p': self.para.kids.append(Node('milestone', 'type="x-p"')); self.put('p')
        elif k == 'section': self.sectionDiv()
        elif k == 'lg': self.lg(); self.l(1)
        elif k in ('l1', 'l2'): self.l(int(k[1]))
        elif k == 'l2 text': self.l(2); t = self.text(); self.para.kids.append(esc(self.sx, t)); self.more(t)
        else: self.verse(k)
    def finish(self): self.endVerse()
    def lines_(self, layout, body):
        head = '<header><work osisWork="W"><title>T</title></work></header>'
        s = '<osis %s><osisText osisIDWork="W" osisRefWork="bible" xml:lang="en">%s\n' % (NS, head)
        for x in body: s = s + x.write(layout)
        s = s + '\n</osisText></osis>'
        return ['<?xml version="1.0" encoding="UTF-8"?>'] + s.split('\n')

def squash(s): return ''.join((s or '').split())
def norm(s): return ' '.join((s or '').split())
def compare(sx, bk, lines, BBB):
    bk.processLines() if not bk._processedFlag else None
    want = bookmaker.content(bookmaker.entries(bookmaker.book(lines, BBB, 'Zefania')))
    have = [e for e in bookmaker.content(bookmaker.entries(bk)) if e.getMarker() != 'id']
    have = [e for e, f in zip(have, have[1:] + [None]) if e.getFullText() or not (e.getMarker() == 'm' and (f is None or f.getMarker() not in ('v', 'p~')) or e.getMarker() == 'p' and f is not None and f.getMarker() == 'q1')] # Paragraphs may be opened where nothing follows
    sx.check([e.getMarker() for e in have] == [e.getMarker() for e in want], 'the markers')
    for x, y in zip(want, have):
        sx.check(sx.same(norm(x.getCleanText()), norm(y.getCleanText())), 'the texts')
        sx.check(sx.same(norm(x.getAdjustedText()), norm(y.getAdjustedText())), 'the texts with their character fields')
        sx.check(sx.same(squash(x.getFullText()), squash(y.getFullText())), 'the texts with their notes and character fields')

def one(sx, style, steps, layout, special=None, title=False, group=False, folder=False):
    d = Doc(sx, style); d.special = special
    d.book(); d.mainTitle() if title else None
    d.chapter(); last = 'c'
    for i, k in enumerate(steps):
        if isinstance(k, tuple): k = sx.choice('k%d' % i, k)
        if k not in VERSES and last in EMPTY: k = 'plain'
        d.step(k); last = k
    d.finish()
    body = [Node('div', 'type="bookGroup" canonical="true"', *d.books)] if group else d.books
    if folder:
        sx.scratchDir()
        for n, x in zip(d.want, d.books): path = sx.file('dir/%s.xml' % CODES[n][0], d.lines_(layout, [x]))
        C = OSIS(os.path.dirname(path))
    else: C = OSIS(sx.file('x.xml', d.lines_(layout, body)))
    q = sx.attempt(C.loadBooks)
    sx.check(q.ok, 'the file is loaded')
    sx.check(sorted(b.BBB for b in C) == sorted(d.want), 'the books of the file')
    for BBB, lines in d.want.items(): compare(sx, C.books[BBB], lines, BBB)

MOVES = {'ms': ('c', 'p', 'p text', 'p middle', 's', 's2', 'sr', 'd', 's w', 's hi', 's note', 'section', 'typed', 'plain'),
         'contp': ('c', 'p', 'p text', 'p middle', 's', 'd', 's w', 'typed', 'plain'),
         'container': ('c', 's', 's w', 's note', 'plain'), 'chapter': ('c', 'x-p', 'plain'), 'lg': ('c', 'lg', 'l1', 'l2', 'l2 text', 's', 'plain')}
PLACE = {'ms': 'p', 'contp': 'p', 'container': 'container', 'chapter': 'chapter', 'lg': 'l'}
def cases(tier):
    q = tier == 'quick'; L = []
    for st in ('ms', 'contp', 'container', 'chapter', 'lg'):
        sh = SHAPES[PLACE[st]]
        for lay in ('compact', 'pretty') if st in ('ms', 'lg') or not q else ('compact',):
            L.append(('%s, verses of all kinds, %s' % (st, lay), one, dict(style=st, steps=(sh, 'plain'), layout=lay)))
        L.append(('%s, places of verses' % st, one, dict(style=st, steps=('plain', MOVES[st], 'plain'), layout='pretty' if st != 'chapter' else 'compact', title=st == 'ms')))
        L.append(('%s, two moves' % st, one, dict(style=st, steps=('plain', MOVES[st], MOVES[st], 'plain'), layout='pretty' if st != 'chapter' else 'compact')))
        if not q or st not in ('ms', 'lg'): L.append(('%s, kinds and places' % st, one, dict(style=st, steps=(sh, MOVES[st], 'plain'), layout='compact')))
        if not q: L.append(('%s, two verses of all kinds' % st, one, dict(style=st, steps=(sh, sh), layout='compact')))
    L.append(('all signs', one, dict(style='ms', steps=('plain', 'nd'), layout='compact', special=2)))
    L.append(('all signs in containers', one, dict(style='container', steps=('plain', 'note'), layout='compact', special=2)))
    for gr in (False, True): L.append(('books%s' % (' in a group' if gr else ''), one, dict(style='contp', steps=('plain', 'book', 'plain', 'book', ('c', 'plain')), layout='pretty', group=gr)))
    L.append(('files of books', one, dict(style='ms', steps=('plain', 'book', 'plain', 'book', 'plain', 'book', 'plain'), layout='pretty', folder=True)))
    return L
