"""P29: reading Bibles in line-based module formats keeps every verse, at its place."""
import os
from harness import common, bookmaker
PROPERTY = 'P29'
ASSUMPTIONS = ['UTF-8 files with a proper header', 'books, chapters and verses in order; no backslashes in the texts but those of the format']
OUTSIDE = 'files with wrong numbers of fields, repeated books, verse numbers going backwards, bridges and letters (no such verses in these formats); a verse repeated with the same number and text (kept once or twice)'
T = [(0x24, 0x24), (0x26, 0x26), (0x2a, 0x2a), (0x30, 0x39), (0x41, 0x5a), (0x61, 0x7a), (0xe9, 0xe9), (0x2019, 0x2019)]
PUNCT = [(0x21, 0x21), (0x22, 0x22), (0x27, 0x29), (0x2c, 0x2e), (0x3a, 0x3b), (0x3d, 0x3d), (0x3f, 0x3f), (0x61, 0x63), (0x201c, 0x201d)]

def setup():
    global M
    bookmaker.setup()
    from BibleOrgSys.Formats import DrupalBible, ForgeForSwordSearcherBible, CSVBible, UnboundBible, VPLBible, YETBible
    M = {'drupal': DrupalBible.DrupalBible, 'forge': ForgeForSwordSearcherBible.ForgeForSwordSearcherBible, 'csv': CSVBible.CSVBible,
         'unbound': UnboundBible.UnboundBible, 'vpl': VPLBible.VPLBible, 'yet': YETBible.YETBible}
    from BibleOrgSys.Reference import BibleOrganisationalSystems, BibleBookOrders, BibleBooksNames, BibleVersificationSystems, BiblePunctuationSystems
    from BibleOrgSys.Reference.BibleOrganisationalSystems import BibleOrganisationalSystem as S
    for m in ('drupal', 'forge', 'vpl'):
        mod = {'drupal': DrupalBible, 'forge': ForgeForSwordSearcherBible, 'vpl': VPLBible}[m]
        if hasattr(mod, 'BOS66'): # which are kept there after the first load
            for k, n in (('BOS66', 'GENERIC-KJV-66-ENG'), ('BOS81', 'GENERIC-KJV-80-ENG'), ('BOSx', 'GENERIC-ENG')):
                if getattr(mod, k) is None: setattr(mod, k, S(n))

BOOKS = ('GEN', 'EXO', 'PSA', 'JDE')
class File:
    """The verses, and the lines of the file for them.  want: {BBB: [(marker, text)]}"""
    def __init__(self, sx, fmt, kind):
        self.sx = sx; self.fmt = fmt; self.kind = kind; self.n = 0
        self.lines = []; self.want = {}; self.bookNr = -1; self.c = self.v = 0; self.tail = []; self.c0 = self.v0 = 0
    def text(self, lo=2, hi=2, dom=T):
        self.n += 1
        return self.sx.string('t%d' % self.n, lo, hi, dom)
    @property
    def BBB(self): return BOOKS[self.bookNr]
    def go(self, step):
        """The place of the next verse"""
        if step in ('book', 'chapter') : 
            if step == 'book': self.bookNr += 1; self.c = self.c0; self.want[self.BBB] = []
            self.c += 1; self.v = 1 + (self.v0 if step == 'book' else 0); self.want[self.BBB].append(('c', str(self.c)))
        elif step == 'gap': self.v += 2
        elif step == 'gapc': self.c += 2; self.v = 1; self.want[self.BBB].append(('c', str(self.c)))
        else: self.v += 1
    def put(self, m, t): self.want[self.BBB].append((m, t))
    def verse(self, t): self.put('v', '%d %s' % (self.v, t))
    def add(self, step, shape):
        if shape == 'blank': step = 'next' # (a chapter has verses)
        self.go(step); getattr(self, self.fmt)(shape)

    # Drupal: CODE|C|V||text
    def drupal(self, shape):
        code = {'GEN': 'GEN', 'EXO': 'EXO', 'PSA': 'PS', 'JDE': 'JUD'}[self.BBB]; t = self.text
        raw = ''; out = ''
        if shape == 'it': a, b, c = t(1, 1), t(), t(1, 1); raw = '%s <%s> %s' % (a, b, c); out = '%s \\it %s\\it* %s' % (a, b, c)
        elif shape == 'punct': raw = out = t(1, 1) + t(2, 2, PUNCT)
        else: raw = out = t()
        self.lines.append('%s|%d|%d||%s' % (code, self.c, self.v, raw)); self.verse(out)

    # Forge for SwordSearcher: $$ reference, text on the next line
    def forge(self, shape):
        t = self.text; names = {'GEN': 'Ge', 'EXO': 'Ex', 'PSA': 'Ps', 'JDE': 'Jude'}
        a, b, c = t(1, 1), t(), t(1, 1); fr = '%d:%d' % (self.c, self.v)
        raw = out = None
        if shape == 'plain': raw = out = b
        elif shape == 'punct': raw = out = a + t(2, 2, PUNCT)
        elif shape == 'para': self.put('p', ''); raw = '\u00b6 ' + b; out = b
        elif shape == 'note': raw = '%s{%s} %s' % (a, b, c); out = '%s\\f + \\fr %s \\ft %s\\f* %s' % (a, fr, b, c)
        elif shape == 'notes': d = t(1, 1); raw = '%s{%s} %s{%s}' % (a, b, c, d); out = '%s\\f + \\fr %s \\ft %s\\f* %s\\f + \\fr %s \\ft %s\\f*' % (a, fr, b, c, fr, d)
        elif shape == 'add': raw = '%s [%s] %s' % (a, b, c); out = '%s \\add %s\\add* %s' % (a, b, c)
        elif shape == 'adds': raw = '[%s] %s [%s]' % (a, b, c); out = '\\add %s\\add* %s \\add %s\\add*' % (a, b, c)
        elif shape == 'red': raw = '%s +r/%s-r/ %s' % (a, b, c); out = '%s \\wj %s\\wj* %s' % (a, b, c)
        elif shape == 'xref': raw = '%s (<scripref>%s</scripref>) %s' % (a, b, c); out = '%s \\x - \\xt %s\\x* %s' % (a, b, c)
        elif shape == 'xref2': raw = '%s <scripref>%s</scripref>%s' % (a, b, c); out = '%s \\x - \\xt %s\\x*%s' % (a, b, c)
        self.lines += ['$$ %s %s' % (names[self.BBB], fr), raw]; self.verse(out)

    # CSV and the like
    def csv(self, shape):
        t = self.text; k = self.kind
        a, b, c = t(1, 1), t(), t(1, 1)
        raw = out = b
        if shape == 'sep': raw = out = a + {'t': ' ', 'n': ' '}.get(k[0], k[-1]) + b
        elif shape == 'punct': raw = out = a + t(2, 2, PUNCT) + 'x'
        elif shape == 'quotes': raw = '%s \\ldblquote %s\\rdblquote %s' % (a, b, c); out = '%s \u201c %s\u201d %s' % (a, b, c)
        elif shape == 'single': raw = '%s \\lquote %s\\rquote %s' % (a, b, c); out = '%s \u2018 %s\u2019 %s' % (a, b, c)
        elif shape == 'dash': raw = '%s\\emdash %s\\endash %s' % (a, b, c); out = '%s\u2014 %s\u2013 %s' % (a, b, c)
        elif shape == 'hex': h = self.sx.choice('h%d' % self.n, ('e9', '41', 'ff')); raw = "%s\\'%s%s" % (a, h, b); out = '%s%s%s' % (a, chr(int(h, 16)), b)
        elif shape == 'dec': h = self.sx.choice('h%d' % self.n, ('233', '199')); raw = "%s\\u%s?%s\\'e8" % (a, h, b); out = '%s%s%s\u00e8' % (a, chr(int(h)), b)
        if k[0] == 'n': self.lines.append('%s %d:%d\t%s' % ({'GEN': 'Genesis', 'EXO': 'Exodus', 'PSA': 'Psalms', 'JDE': 'Jude'}[self.BBB], self.c, self.v, raw))
        else:
            name = {'GEN': '1', 'EXO': '2', 'PSA': '19', 'JDE': '65'}[self.BBB] if '#' in k else self.BBB
            sep = '\t' if k[0] == 't' else k[-1]
            f = [name, str(self.c), str(self.v), raw]
            if '"' in k: f = ['"%s"' % x for x in f]
            self.lines.append(sep.join(f))
        self.verse(out)

    # Unbound Bible: tabs between 4, 6 or 9 fields
    def unbound(self, shape):
        code = {'GEN': '01O', 'EXO': '02O', 'PSA': '19O', 'JDE': '65N'}[self.BBB]; t = self.text
        raw = out = t()
        if shape == 'spaces': raw = ' ' + out + ' '
        elif shape == 'punct': raw = out = out + t(2, 2, PUNCT)
        f = [code, str(self.c), str(self.v)]
        if shape == 'blank': # there is no verse
            self.lines.append('\t'.join(f + ['', '%d' % (10 * self.n), self.sx.choice('b%d' % self.n, ('', ' '))][0:(2 if self.kind == 4 else 6)] if self.kind != 4 else f + ['']))
            return
        if self.kind == 6: f += ['', str(10 * self.n)]
        elif self.kind == 9: f = ['01O', '3', '4'] + f + ['', str(10 * self.n)]
        self.lines.append('\t'.join(f + [raw])); self.verse(out)

    # Verse per line
    def vpl(self, shape):
        t = self.text; k = self.kind
        a, b, c = t(1, 1), t(), t(1, 1)
        raw = out = b
        if k == 1:
            if shape == 'add': raw = '%s [%s] %s' % (a, b, c); out = '%s \\add %s\\add* %s' % (a, b, c)
            elif shape == 'red': raw = '%s <%s> %s' % (a, b, c); out = '%s \\wj %s\\wj* %s' % (a, b, c)
            elif shape == 'para': raw = '\u00b6 ' + b; self.put('p', '')
            elif shape == 'title': raw = '\u00ab%s.\u00bb %s' % (a, b); self.put('d', a + '.')
            elif shape == 'punct': raw = out = a + t(2, 2, PUNCT)
            self.lines.append('%s %d:%d %s' % ({'GEN': 'Ge', 'EXO': 'Ex', 'PSA': 'Ps', 'JDE': 'Jude'}[self.BBB], self.c, self.v, raw)); self.verse(out)
        elif k in (2, 3):
            if shape == 'para': raw = '\u00b6 ' + b; self.put('p', '')
            elif shape == 'spaced': raw = '%s , %s ; ( %s ) .' % (a, b, c); out = '%s, %s; (%s).' % (a, b, c)
            self.lines.append('%02d%03d%03d\t%s' % ({'GEN': 1, 'EXO': 2, 'PSA': 19, 'JDE': 65}[self.BBB], self.c, self.v, raw)); self.verse(out)
        elif k == 5:
            if self.v == 1:
                if self.c == 1:
                    if self.lines[-1:] != ['']: self.lines += ['', '']
                    self.lines += [{'GEN': 'Genesis', 'EXO': 'Exodus', 'PSA': 'Psalms', 'JDE': 'Jude'}[self.BBB], '']
                else: self.lines += ['']
                self.lines.append('%s %d' % ('Psalm' if self.BBB == 'PSA' else 'Chapter', self.c))
            if shape == 'cont': self.sx.assume(self.sx.no(c.isdigit())); self.lines += ['%d %s' % (self.v, b), c]; out = b + ' ' + c
            else: self.lines.append('%d %s' % (self.v, raw))
            self.verse(out)

    # YES-type text: tabs, the text with @ codes
    def yet(self, shape):
        t = self.text; ref = '%d\t%d\t%d' % ({'GEN': 1, 'EXO': 2, 'PSA': 19, 'JDE': 65}[self.BBB], self.c, self.v)
        a, b, c = t(1, 1), t(), t(1, 1)
        raw = b; out = [('v', '%d %s' % (self.v, b))]
        n = '%d ' % self.v
        if shape == 'wj': raw = '@@%s @6%s@5 %s' % (a, b, c); out = [('v', n + '%s \\wj %s\\wj* %s' % (a, b, c))]
        elif shape == 'add': raw = '@@%s @9%s@7 %s' % (a, b, c); out = [('v', n + '%s \\add %s\\add* %s' % (a, b, c))]
        elif shape == 'note': raw = '@@%s@<f1@>@/ %s' % (a, c); out = [('v', n + '%s\\f + \\ft %s\\f* %s' % (a, b, c))]; self.tail.append('footnote\t%s\t1\t%s' % (ref, b))
        elif shape == 'notes':
            raw = '@@%s@<f1@>@/%s@<f2@>@/' % (a, c); d = t(1, 1)
            out = [('v', n + '%s\\f + \\ft %s\\f*%s\\f + \\ft %s\\f*' % (a, b, c, d))]; self.tail += ['footnote\t%s\t1\t%s' % (ref, b), 'footnote\t%s\t2\t%s' % (ref, d)]
        elif shape == 'xref': raw = '@@%s@<x1@>@/ %s' % (a, c); out = [('v', n + '%s\\x - \\xt %s\\x* %s' % (a, b, c))]; self.tail.append('xref\t%s\t1\t%s' % (ref, b))
        elif shape == 'both': raw = '@@%s@<x1@>@/@<f1@>@/' % a; out = [('v', n + '%s\\x - \\xt %s\\x*\\f + \\ft %s\\f*' % (a, c, b))]; self.tail += ['xref\t%s\t1\t%s' % (ref, c), 'footnote\t%s\t1\t%s' % (ref, b)]
        elif shape in PARA: raw = '@@%s%s' % (PARA[shape][0], b); out = [(PARA[shape][1], '')] + out
        elif shape == 'inner': k = self.sx.choice('i%d' % self.n, tuple(PARA)); raw = '@@%s%s%s' % (b, PARA[k][0], c); out += [(PARA[k][1], c)]
        elif shape == 'inner2': raw = '@@@1%s @2%s@8%s' % (a, b, c); out = [('q1', ''), ('v', n + a), ('q2', b), ('m', c)]
        elif shape in ('head', 'headr', 'headrr'):
            self.tail.append('pericope\t%s\t%s' % (ref, a)); refs = ''
            if shape != 'head': refs = 'Ge ' + c; self.tail.append('parallel\t' + refs)
            if shape == 'headrr': self.tail.append('parallel\tEx 2'); refs += '; Ex 2'
            out = [('s', a)] + ([('r', '(%s)' % refs)] if refs else []) + out
        for m, x in out: self.put(m, x)
        self.lines.append('verse\t%s\t%s' % (ref, raw))

PARA = {'P^': ('@^', 'p'), 'P0': ('@0', 'm'), 'P1': ('@1', 'q1'), 'P2': ('@2', 'q2'), 'P3': ('@3', 'q3'), 'P4': ('@4', 'q4'), 'P8': ('@8', 'm')}

def load(sx, f, header, enc='utf-8'):
    fmt = f.fmt; extra = {}
    lines = header + f.lines + f.tail
    name = {'drupal': 'x.bc', 'forge': 'x.txt', 'unbound': 'x_utf8.txt', 'yet': 'x.yet', 'csv': 'x.csv', 'vpl': 'x.vpl'}[fmt]
    path = sx.file(name, lines)
    where = os.path.dirname(path)
    C = M[fmt](where, 'x', encoding=enc) if enc else M[fmt](where, 'x')
    q = sx.attempt(C.load)
    sx.check(q.ok, 'the file is loaded')
    return C

def compare(sx, C, f, anyOrder=False):
    got = [b.BBB for b in C]
    sx.check(got == list(f.want) or anyOrder and set(got) == set(f.want), 'the books of the file')
    for BBB, lines in f.want.items():
        new = C.books[BBB]
        new.processLines() if not new._processedFlag else None
        want = bookmaker.entries(bookmaker.book(lines, BBB, new.objectTypeString))
        have = bookmaker.entries(new)
        sx.check(len(have) == len(want), 'as many entries')
        for x, y in zip(want, have):
            sx.check(x.getMarker() == y.getMarker(), 'the markers')
            sx.check(sx.same(x.getFullText() or '', y.getFullText() or ''), 'the texts')

HEAD = {'drupal': ['*Bible', '#shortname fullname language', 'Sh|Full name|en', '*Chapter', '#book,fullname,shortname,chap-count', 'GEN|Genesis|GEN|50', 'EXO|Exodus|EXO|40', 'PS|Psalms|PS|150', 'JUD|Jude|JUD|1', '*Context', '#Book,Chapter,Verse,LineMark,Context'],
        'forge': ['; TITLE: Full name', '; ABBREVIATION: Sh', '; HAS ITALICS'], 'unbound': ['#THE UNBOUND BIBLE', '#name\tFull name', '#columns\tx'],
        'yet': ['info\tshortName\tSh', 'info\tlongName\tFull name', 'info\tdescription\tx', 'info\tlocale\ten', 'book_name\t1\tGenesis', 'book_name\t2\tExodus', 'book_name\t19\tPsalms\tPs', 'book_name\t65\tJude']}
def header(f, which='all'):
    if f.fmt == 'forge' and which != 'all': return HEAD['forge'][1:2] if which == 'other' else []
    if f.fmt == 'csv':
        if f.kind[0] in 'tn': return []
        q = '"%s"' if '"' in f.kind else '%s'
        return [f.kind[-1].join(q % x for x in ('Book', 'Chapter', 'Verse', 'Text'))]
    if f.fmt == 'vpl': return {1: [], 2: [], 3: ['# language_name:\tEnglish', '# title:\tFull name', '# x', '# copyright_short:\ty'], 5: ['Full name']}[f.kind]
    return HEAD[f.fmt]

def steps(sx, fmt, kind, shapes, moves, enc='utf-8', bom=False, head='all', blank=False, far=False):
    f = File(sx, fmt, kind)
    if far: f.c0 = sx.choice('c0', (0, 8, 9, 19, 98, 99)); f.v0 = sx.choice('v0', (0, 8, 9, 98, 99, 119))
    for i, s in enumerate(shapes):
        m = 'book' if i == 0 else moves[i - 1]
        if isinstance(m, tuple): m = sx.choice('m%d' % i, m)
        if isinstance(s, tuple): s = sx.choice('s%d' % i, tuple(x for x in s if i or x != 'blank'))
        f.add(m, s)
    h = header(f, head)
    if blank: f.lines = [x for l in f.lines for x in (l, '')]; h = h[:1] + [''] + h[1:] if h else h
    if bom:
        if h: h = ['\ufeff' + h[0]] + h[1:]
        else: f.lines[0] = '\ufeff' + f.lines[0]
    C = load(sx, f, h, enc)
    compare(sx, C, f)
    if fmt == 'drupal': sx.check(C.name == 'Full name', 'the name')
    elif fmt == 'forge' and head == 'all': sx.check(C.suppliedMetadata['Forge4SS']['TITLE'] == 'Full name' and C.suppliedMetadata['Forge4SS']['ABBREVIATION'] == 'Sh', 'the metadata')
    elif fmt == 'unbound': sx.check(C.suppliedMetadata['Unbound']['name'] == 'Full name', 'the metadata')
    elif fmt == 'vpl' and kind == 3: sx.check(C.suppliedMetadata['VPL']['WorkTitle'] == 'Full name' and C.suppliedMetadata['VPL']['LanguageName'] == 'English', 'the metadata')
    elif fmt == 'yet': sx.check(C.name == 'Sh', 'the name')

def folder(sx, fmt, kind, ext):
    """One file for each book"""
    sx.scratchDir(); files = []
    for i in range(sx.choice('n', (1, 2))):
        f = File(sx, fmt, kind); f.n = 20 * i; f.bookNr = i - 1; f.add('book', 'plain')
        f.add(sx.choice('m%d' % i, ('next', 'chapter') if kind == 5 else ('next', 'gap', 'chapter')), 'plain'); files.append(f)
        sx.file('dir/%s.%s' % (f.BBB, ext), header(f) + f.lines)
    C = M[fmt](os.path.join(os.path.dirname(sx.outPath('o')), 'dir'), 'x', 'x', encoding='utf-8')
    q = sx.attempt(C.loadBooks)
    sx.check(q.ok, 'the files are loaded')
    all = File(sx, fmt, kind)
    for f in files: all.want.update(f.want)
    compare(sx, C, all, fmt == 'vpl')

def psalm(sx, shapes):
    """Titles of psalms"""
    f = File(sx, 'vpl', 1); f.add('book', 'plain')
    f.bookNr = 1; f.add('book', shapes[0])
    for s, m in zip(shapes[1:], ('chapter', 'next', 'chapter')): f.add(m, s)
    compare(sx, load(sx, f, []), f)

SHAPES = {'drupal': ('plain', 'it', 'punct'), 'forge': ('plain', 'para', 'note', 'notes', 'add', 'adds', 'red', 'xref', 'xref2', 'punct'),
          'csv': ('plain', 'sep', 'punct', 'quotes', 'single', 'dash', 'hex', 'dec'), 'unbound': ('plain', 'spaces', 'punct', 'blank'),
          'yet': ('plain', 'wj', 'add', 'note', 'notes', 'xref', 'both', 'inner', 'inner2', 'head', 'headr', 'headrr') + tuple(PARA)}
VSHAPES = {1: ('plain', 'add', 'red', 'para', 'punct'), 2: ('plain', 'para', 'spaced'), 3: ('plain', 'spaced'), 5: ('plain', 'cont')}
MOVES = ('next', 'gap', 'chapter', 'gapc', 'book')
KINDS = {'drupal': (0,), 'forge': (0,), 'unbound': (4, 6, 9), 'yet': (0,), 'csv': (',', '",', '|', '"|', '#,', '#",', 't', 't#', 'n'), 'vpl': (1, 2, 3, 5)}
def cases(tier):
    out = []
    for fmt, kinds in KINDS.items():
        for k in kinds:
            S = VSHAPES[k] if fmt == 'vpl' else SHAPES[fmt]; n = '%s %s ' % (fmt, k)
            moves = ('next', 'chapter', 'book') if (fmt, k) == ('vpl', 5) else MOVES
            S1 = ('plain', 'note', 'notes', 'inner', 'P4', 'headr') if fmt == 'yet' and tier == 'quick' else S
            out += [(n + 'shapes', steps, dict(fmt=fmt, kind=k, shapes=(S1, S), moves=(('next', 'chapter', 'book'),))),
                    (n + 'places', steps, dict(fmt=fmt, kind=k, shapes=('plain',) * 4, moves=(moves,) * 3))]
            if (fmt, k) != ('vpl', 5): out.append((n + 'numbers', steps, dict(fmt=fmt, kind=k, shapes=('plain', 'plain'), moves=(('next', 'chapter', 'book'),), far=True)))
            if fmt == 'forge': out += [(n + 'header ' + h, steps, dict(fmt=fmt, kind=k, shapes=('plain', ('note', 'plain')), moves=(MOVES,), head=h)) for h in ('other', 'none')]
            if tier == 'thorough': out.append(('T ' + n + 'three', steps, dict(fmt=fmt, kind=k, shapes=(S,) * 3 if len(S) < 6 else ('plain', S, S[:6] + S[-2:]), moves=(('next', 'chapter'), ('next', 'chapter', 'book')))))
        if fmt in ('drupal', 'forge', 'vpl'): out.append((fmt + ' byte order mark', steps, dict(fmt=fmt, kind=kinds[0], shapes=('plain', 'plain'), moves=(MOVES,), bom=True)))
    out += [('%s %s blank lines' % (f, k), steps, dict(fmt=f, kind=k, shapes=('plain',) * 3, moves=(MOVES,) * 2, blank=True)) for f, k in (('drupal', 0), ('forge', 0), ('unbound', 4), ('yet', 0), ('csv', ','), ('vpl', 1), ('vpl', 2))]
    out += [('csv folder', folder, dict(fmt='csv', kind=',', ext='txt')), ('vpl folder', folder, dict(fmt='vpl', kind=1, ext='vpl')), ('vpl 5 folder', folder, dict(fmt='vpl', kind=5, ext='txt')),
            ('vpl encoding not given', steps, dict(fmt='vpl', kind=1, shapes=('plain', 'plain'), moves=(MOVES,), enc=None)),
            ('psalm titles', psalm, dict(shapes=('title', 'title', 'plain', 'title')))]
    return out
