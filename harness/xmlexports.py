"""P30: XML exports are well formed and have every verse, with its number and its whole text, its notes and headings."""
from harness import common, bookmaker, usfmexport, textexports
PROPERTY = 'P30'
ASSUMPTIONS = ['the Bible was loaded from lines with known markers', 'the zip files made besides (stubbed out) hold the files written', 'the XML parser of the engine decides well-formedness while texts are symbolic (replays use xml.etree.ElementTree)']
OUTSIDE = 'layout (indentation, white space, also directly before a note); formatting of characters in OSIS, Zefania, Haggai and OpenSong (Haggai keeps the markers; Zefania has no equivalent for most); headings in Zefania, Haggai and OpenSong (they leave them out), notes in Haggai and OpenSong (likewise), verses without text in these three; validity against the schemas; the book names of the headers; word attributes, figures'
T = [(0x24, 0x25), (0x27, 0x29), (0x2b, 0x3b), (0x3f, 0x5b), (0x5d, 0x60), (0x61, 0x7a), (0xe9, 0xe9), (0x2019, 0x2019)]
SPECIAL = [(0x21, 0x29), (0x2b, 0x3b), (0x3f, 0x5b), (0x5d, 0x60), (0x61, 0x7a), (0xe9, 0xe9), (0x2019, 0x2019)]

def setup():
    global BW
    BW = usfmexport.setupWriter()
    textexports.BW = BW

class Book(textexports.Book):
    """Also keeps the notes and the character fields of each verse"""
    def __init__(self, sx, BBB):
        super().__init__(sx, BBB); self.notes = []; self.chars = []; self.headNotes = []
    special = None # which of the texts may have characters with a meaning in XML
    def text(self, lo=2, hi=2, dom=T): return bookmaker.Maker.text(self, lo, hi, SPECIAL if self.n + 1 == self.special and dom is T else dom)
    def add(self, k):
        t = self.text
        if k == 'vn': a, b, c = t(), t(), t(1, 1); self.verse('%s\\f + \\fr 1:1 \\ft %s\\f*%s' % (a, b, c), a + c); self.notes.append(('f', '1:1 ', b))
        elif k == 'vx': a, b = t(), t(1, 1, 'ab&"'); self.verse('%s\\x - \\xo 1:1 \\xt Gen 1:3 %s\\x*' % (a, b), a); self.notes.append(('x', '1:1 ', 'Gen 1:3 ' + b))
        elif k == 'vn2':
            a, b, c, d = t(1, 1), t(1, 1), t(1, 1), t(1, 1)
            self.verse('%s\\f + \\fr 1:1 \\ft %s\\f* %s\\f + \\fr 1:1 \\ft %s\\f*' % (a, b, c, d), a + ' ' + c); self.notes += [('f', '1:1 ', b), ('f', '1:1 ', d)]
        elif k == 'vnq':
            a, b, c, d = t(1, 1), t(1, 1), t(1, 1), t(1, 1)
            self.verse('%s\\f + \\fr 1:1 \\fq %s \\ft %s\\f*%s' % (a, b, c, d), a + d); self.notes.append(('f', '1:1 ', b + ' ' + c))
        elif k == 'vn3':
            a, b, c, d = t(1, 1), t(1, 1), t(1, 1), t(1, 1)
            self.verse('%s\\f + \\ft %s\\f* %s\\x - \\xt Gen 1:3\\x* %s\\f + \\fr 1:1 \\ft %s\\f*%s' % (a, b, b, c, d, a), a + ' ' + b + ' ' + c + a); self.notes += [('f', '', b), ('x', '', 'Gen 1:3'), ('f', '1:1 ', d)]
        elif k == 'v-': n, m = self.v + 1, self.sx.choice('b%d' % self.n, (1, 2)); self.verse(t(), number='%d-%d' % (n, n + m)); self.v += m
        elif k == 's1c': a, b, c = t(1, 1), t(1, 1), t(1, 1); self.lines.append(('s1', '%s \\nd %s\\nd* %s' % (a, b, c))); self.heads.append(('s1', ' '.join((a, b, c)))); self.chars.append(('nd', b))
        elif k == 's1n':
            a, b = t(), t(1, 1); self.lines.append(('s1', '%s\\f + \\ft %s\\f*' % (a, b))); self.heads.append(('s1', a)); self.notes.append(('f', '', b)); self.headNotes.append(len(self.notes) - 1)
        elif k == 'v2':
            a, b, c = t(1, 1), t(1, 1), t(1, 1)
            self.verse('%s \\add %s\\add* \\nd %s\\nd*' % (a, b, c), ' '.join((a, b, c))); self.chars += [('add', b), ('nd', c)]
        elif k in ('vch', 'vnd', 'char'):
            m = 'add' if k == 'vch' else 'nd' if k == 'vnd' else self.sx.choice('m%d' % self.n, textexports.CHARS); a, b, c = t(1, 1), t(), t(1, 1)
            self.verse('%s \\%s %s\\%s* %s' % (a, m, b, m, c), '%s %s %s' % (a, b, c)); self.chars.append((m, b))
        elif k == 'nested':
            a, b = t(1, 1), t(1, 1)
            self.verse('%s \\wj %s \\+nd %s\\+nd* %s\\wj* %s' % (a, b, b, a, b), ' '.join((a, b, b, a, b))); self.chars += [('wj', b + ' ' + b + ' ' + a), ('nd', b)]
        elif k[-1] == '/': self.add(k[:-1]); self.add('p') # a heading before a paragraph
        else: super().add(k)

def norm(s): return ' '.join(s.split())

class Reader:
    """Walks over a tree: verses [chapter, number, text], notes, heads, characters fields.  Text is kept as it comes."""
    def __init__(self, sx):
        self.sx = sx; self.verses = []; self.notes = []; self.heads = []; self.chars = []; self.c = None; self.cur = None; self.ids = []
    def put(self, s):
        if s and self.head is not None: self.head += s
        elif s and self.cur is not None: self.cur[2] += s
    def strip(self):
        if self.head is not None: self.head = self.head.rstrip()
        elif self.cur is not None: self.cur[2] = self.cur[2].rstrip()
    head = None # the text of the heading we are in
    def heading(self, e, kind): self.head = e.text or ''; self.walk(e); self.heads.append((kind, norm(self.head))); self.head = None
    def begin(self, number): self.cur = [self.c, number, '']; self.verses.append(self.cur)
    def everything(self, e): return (e.text or '') + ''.join([self.everything(x) + (x.tail or '') for x in e])

SECTION = ('s1', 's2', 'ms1', 'r', 'd', 'sp', 'mt1', 'mt2', 'mt3', 'is1', 'ip', 'h', 'toc1', 'rem', 'mr', 'imt1', 'id')
class USX(Reader):
    chapterTag, verseTag, idName = 'chapter', 'verse', 'number'
    def kind(self, e): return (e.tag, e.get('style')) if e.tag in ('para', 'char', 'note') else (e.tag, None)
    def walk(self, e):
        for x in e:
            tag, style = self.kind(x)
            if tag == self.chapterTag:
                if x.get('eid') is None: self.c = x.get(self.idName)
                if x.get('sid') is not None: self.ids.append(('c', 's', x.get('sid')))
                if x.get('eid') is not None: self.ids.append(('c', 'e', x.get('eid')))
                self.cur = None
            elif tag == self.verseTag:
                if x.get('sid') is not None: self.ids.append(('v', 's', x.get('sid')))
                if x.get('eid') is not None: self.ids.append(('v', 'e', x.get('eid'))); self.cur = None
                else: self.begin(x.get(self.idName))
            elif tag == 'note':
                self.notes.append((style, self.everything(x)))
                self.strip()
            elif tag == 'char':
                if style != 'vp':
                    self.chars.append((style, norm(self.everything(x)))); self.put(x.text); self.walk(x)
            elif tag == 'ref': self.put(x.text); self.walk(x)
            elif tag in ('para', 'book'):
                if style in SECTION:
                    self.heading(x, style)
                else:
                    self.put(' '); self.put(x.text); self.walk(x); self.put(' ')
            if x.tail: self.put(x.tail)

class USFX(USX):
    chapterTag, verseTag, idName = 'c', 'v', 'id'
    def kind(self, e):
        if e.tag in ('c', 'v'): return (e.tag, None)
        if e.tag in ('f', 'x'): return ('note', e.tag)
        if e.tag == 'char': return ('char', e.get('style'))
        return ('para', e.tag)

NS = '{http://www.bibletechnologies.net/2003/OSIS/namespace}'
class OSIS(Reader):
    def walk(self, e):
        for x in e:
            tag = x.tag[len(NS):] if x.tag.startswith(NS) else x.tag
            if tag in ('chapter', 'verse'):
                s, n = x.get('sID'), x.get('eID')
                self.ids.append((tag[0], 's' if s is not None else 'e', s if s is not None else n))
                if tag == 'chapter': self.c = x.get('osisID') if s is not None else None; self.cur = None
                elif s is not None: self.begin(x.get('osisID'))
                else: self.cur = None
            elif tag == 'note':
                self.notes.append(('x' if x.get('type') == 'crossReference' else 'f', self.everything(x)))
                self.strip()
            elif tag in ('title', 'speaker'):
                self.heading(x, x.get('type') or tag)
            elif tag in ('header',): pass
            else: self.put(x.text); self.walk(x)
            if x.tail: self.put(x.tail)

class Verses(Reader):
    """Zefania, Haggai, OpenSong: an element for each verse (or part of a verse)"""
    def __init__(self, sx, C, cName, V, vName): super().__init__(sx); self.C, self.cName, self.V, self.vName = C, cName, V, vName
    def walk(self, e):
        for x in e:
            if x.tag == self.C: self.c = x.get(self.cName); self.walk(x); self.cur = None
            elif x.tag == self.V:
                n = x.get(self.vName)
                if x.get('enumber') is not None: n += '-' + x.get('enumber')
                if n is not None: self.begin(n)
                else: self.put(' ')
                self.put(x.text); self.inside(x)
            else: self.walk(x)
    def inside(self, e):
        for x in e:
            if x.tag in ('NOTE', 'XREF'): self.notes.append(('f' if x.tag == 'NOTE' else 'x', self.everything(x)))
            else: self.put(x.text); self.inside(x)
            if x.tail: self.put(x.tail)

OSISNAMES = {'JNA': 'Jonah', 'GEN': 'Gen', 'JDE': 'Jude', 'CO1': '1Cor', 'PSA': 'Ps', 'MAT': 'Matt'}
def readers(sx, B, fmt, bs):
    """For each book its reader, after walking"""
    if fmt in ('usx', 'usx2'):
        d = usfmexport.export(sx, B, 'toUSXXML' if fmt == 'usx' else 'toUSX2XML'); out = []
        for b in bs:
            root = sx.xml('%s/%s/%s.usx' % (d, 'USX3Files' if fmt == 'usx' else 'USX2Files', NAMES[b.BBB]))
            sx.check(root.tag == 'usx', 'the root element')
            r = USX(sx); r.walk(root); out.append(r)
            code = [x.get('code') for x in root if x.tag == 'book']
            sx.check(code == [NAMES[b.BBB][3:]], 'the code of the book')
        return out
    if fmt == 'osis':
        for b in bs: b_ = B.books[b.BBB]; b_.assumedBookName = b.BBB.title()
        d = usfmexport.export(sx, B, 'toOSISXML'); out = []
        for b in bs:
            root = sx.xml('%s/Book-%s.osis' % (d, b.BBB))
            divs = [x for x in root.iter() if x.tag == NS + 'div' and x.get('type') == 'book']
            sx.check([x.get('osisID') for x in divs] == [OSISNAMES[b.BBB]], 'the book')
            r = OSIS(sx); r.walk(divs[0]); out.append(r)
        return out
    if fmt == 'usfx':
        root = sx.xml('%s/Bible.usfx' % usfmexport.export(sx, B, 'toUSFXXML'))
        els = [x for x in root if x.tag == 'book']
        sx.check([x.get('id') for x in els] == [NAMES[b.BBB][3:] for b in bs], 'the books')
        out = []
        for x in els: r = USFX(sx); r.walk(x); out.append(r)
        return out
    for b in bs: B.books[b.BBB].assumedBookName = b.BBB.title()
    meth, name, tag, args = {'zef': ('toZefaniaXML', 'Bible.zef', 'BIBLEBOOK', ('CHAPTER', 'cnumber', 'VERS', 'vnumber')),
        'hag': ('toHaggaiXML', 'Bible.hag', 'BIBLEBOOK', ('CHAPTER', 'cnumber', 'VERSE', 'vnumber')),
        'osong': ('toOpenSongXML', 'Bible.osong', 'b', ('c', 'n', 'v', 'n'))}[fmt]
    root = sx.xml('%s/%s' % (usfmexport.export(sx, B, meth), name))
    els = [x for x in root if x.tag == tag]
    sx.check(len(els) == len(bs), 'the books')
    if fmt != 'osong': sx.check([x.get('bnumber') for x in els] == [str(int(NUMBERS[b.BBB])) for b in bs], 'the numbers of the books')
    out = []
    for x in els: r = Verses(sx, *args); r.walk(x); out.append(r)
    return out
NAMES = {'JNA': '032JON', 'GEN': '001GEN', 'JDE': '065JUD', 'CO1': '046CO1', 'PSA': '019PSA'}
NUMBERS = {'JNA': 32, 'GEN': 1, 'JDE': 65, 'CO1': 46, 'PSA': 19}

def compare(sx, fmt, bs):
    B = usfmexport.writer([b.book() for b in bs])
    rs = readers(sx, B, fmt, bs)
    for b, r in zip(bs, rs):
        want = b.verses if fmt not in ('zef', 'hag', 'osong') else [v for v in b.verses if v[3]]
        sx.check(len(r.verses) == len(want), 'all the verses')
        for v, (c, n, text) in zip(want, r.verses):
            num = v[2] or v[1]
            if fmt == 'osis':
                pre = '%s.%s.' % (OSISNAMES[b.BBB], v[0])
                sx.check(c == pre[:-1], 'the chapter of the verse')
                if '-' in num: sx.check(n == ' '.join([pre + x for x in num.split('-')]), 'the number of the verse')
                else: sx.check(sx.same(n, pre + num), 'the number of the verse')
            else:
                sx.check(c == str(v[0]), 'the chapter of the verse')
                sx.check(sx.same(n, num), 'the number of the verse')
            sx.check(sx.same(norm(text), norm(b.whole(v))), 'the text of the verse')
        if fmt not in ('hag', 'osong'):
            notes = [n for i, n in enumerate(b.notes) if fmt != 'zef' or i not in b.headNotes]
            sx.check(len(r.notes) == len(notes), 'all the notes')
            for (k, org, t), (k2, t2) in zip(notes, r.notes):
                sx.check(k == k2, 'the kind of the note')
                sx.check(sx.same(norm(t2), norm((org if fmt != 'zef' else '') + t)), 'the text of the note')
        if fmt in ('usx', 'usx2', 'usfx'):
            heads = [h for h in r.heads if h[0] != 'id' and h[0] != 'h' and h[0] != 'rem']
            hw = [h for h in b.heads if h[0] not in ('h', 'rem')]
            sx.check([h[0] for h in heads] == [h[0] for h in hw], 'the headings')
            for (k, t), (k2, t2) in zip(hw, heads): sx.check(sx.same(norm(t2), t), 'the text of the heading')
            chars = [c for c in r.chars]
            sx.check([c[0] for c in chars] == [c[0] for c in b.chars], 'the character fields')
            for (k, t), (k2, t2) in zip(b.chars, chars): sx.check(sx.same(norm(t2), norm(t)), 'the text of the character field')
        if fmt == 'osis':
            hw = [h for h in b.heads if h[0] in ('s1', 's2', 'ms1', 'mt1', 'mt2', 'mt3', 'is1', 'd', 'sp', 'r')]
            sx.check(len(r.heads) == len(hw), 'the headings')
            for (k, t), (k2, t2) in zip(hw, r.heads): sx.check(sx.same(norm(t2), t), 'the text of the heading')
        if fmt in ('usx', 'osis'): milestones(sx, fmt, b, r)

def milestones(sx, fmt, b, r):
    """Starts and ends of chapters and verses alternate and name the same place"""
    opened = {}
    for k, se, name in r.ids:
        if se == 's':
            sx.check(k not in opened, 'a start within a chapter or verse'); opened[k] = name
        else:
            sx.check(k in opened, 'an end without a start'); sx.check(sx.same(opened.pop(k), name), 'start and end of the same place')
    sx.check(not opened, 'all chapters and verses are closed')
    if fmt == 'usx':
        sx.check([i for i in r.ids if i[1] == 's' and i[0] == 'v'] == [('v', 's', '%s %d:%s' % (NAMES[b.BBB][3:], v[0], v[1])) for v in b.verses], 'the places of the verses')

def lines(sx, fmt, kinds, BBB='JNA', special=0):
    b = Book(sx, BBB)
    if special: b.special = sx.choice('special', tuple(range(1, special + 1)))
    for i, k in enumerate(kinds): b.add(sx.choice('k%d' % i, k) if isinstance(k, tuple) else k)
    compare(sx, fmt, [b])

def several(sx, fmt, BBBs):
    bs = []
    for i, BBB in enumerate(BBBs):
        b = Book(sx, BBB); b.n = 20 * i
        for j in range(sx.choice("c%d" % i, (1, 2))):
            for k in ('c', 'p', 'v', 'v'): b.add(k)
        bs.append(b)
    compare(sx, fmt, bs)

ALLVERSES = ('v', 'v-', 'va', 'v0', 'vn', 'vx', 'vnd', 'vp')
MIDDLES = ('p', 'm', 'q1', 'b', 's1', 'ms1', 'li1+', 'q1+', 'p+')
PRE = ('mt2', 'mt3', 'ip', 'is1', 'rem', 'toc1')
def cases(tier):
    out = []
    for f in ('usx', 'usx2', 'usfx', 'osis', 'zef', 'hag', 'osong'):
        VERSES = ALLVERSES if f != 'hag' else ALLVERSES[:-2] + ('vp',); MID = MIDDLES + VERSES
        H = ('r/', 'd/', 'sp/') if f != 'osis' else ('r/', 'sp/')
        out += [('%s beginning' % f, lines, dict(fmt=f, kinds=('toc1', 'mt1', PRE[2:], PRE[2:], 'c', 'p', 'v'), special=4)),
                ('%s verses' % f, lines, dict(fmt=f, kinds=('c', 'p', VERSES, VERSES if f != 'osis' else 'v'))),
                ('%s special characters' % f, lines, dict(fmt=f, kinds=('c', 's1', 'p', VERSES), special=4)),
                ('%s after a verse' % f, lines, dict(fmt=f, kinds=('c', ('p', 's1', 'q1', 'li1') + H, 'v', MID + ('rem',) + H, 'v'))),
                ('%s two' % f, lines, dict(fmt=f, kinds=('c', 'p', 'v', MID[:9], MID[:9], 'v0' if f in ('usx', 'osis') else 'v'))),
                ('%s chapters' % f, lines, dict(fmt=f, kinds=('c', ('p', 'q1'), 'v', ('p', 'q1+', 's1', 'v0', 'v-'), 'c', ('p', 's1', 'q1'), 'v'))),
                ('%s notes' % f, lines, dict(fmt=f, kinds=('c', ('p', 's1n', 's1c'), ('vn2', 'vn', 'vnq', 'vn3'), 'v'), special=6)),
                ('%s several' % f, several, dict(fmt=f, BBBs=('GEN', 'JDE')))]
        if f not in ('hag', 'zef'): out.append(('%s character markers' % f, lines, dict(fmt=f, kinds=('c', 'p', ('char', 'nested', 'v2'), 'v'), special=3)))
        else: out.append(('%s character markers' % f, lines, dict(fmt=f, kinds=('c', 'p', ('vch', 'vnd', 'nested', 'v2') if f == 'zef' else 'v', 'v'), special=3)))
        if tier == 'thorough': out.append(('T %s three' % f, lines, dict(fmt=f, kinds=('c', 'p', 'v', MID, MID, MID))))
    return out
