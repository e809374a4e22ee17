"""P33: modules for Bible programs (theWord, MySword, e-Sword, MyBible): each verse is at its place with its whole text."""
from harness import common, bookmaker, usfmexport, textexports
PROPERTY = 'P33'
ASSUMPTIONS = ['the Bible was loaded from lines with known markers', 'the zip and tar files made besides (stubbed out) hold the files written', 'in symbolic runs sqlite3 is a small in-memory stand-in for the statements used (replays use the real one)']
OUTSIDE = 'how headings, paragraphs and character formatting are shown (only that the texts are there); words of speaker headings; notes in e-Sword modules and cross-references in e-Sword and MyBible modules (these leave them out), titles and section headings of the higher levels in MyBible modules; further books than those of the tests; settings; the zip and tar files; white space; two parts of the same verse (3a, 3b); verses which the King James versification does not have (except JN3 1:15, REV 12:18)'
T = [(0x24, 0x25), (0x27, 0x29), (0x2b, 0x3b), (0x3f, 0x5b), (0x5d, 0x60), (0x61, 0x7a), (0xe9, 0xe9), (0x2019, 0x2019)]

def setup():
    global BW, K
    BW = usfmexport.setupWriter()
    textexports.BW = BW
    import zipfile, tarfile
    zipfile.ZipFile = usfmexport._Zip; tarfile.open = lambda *a, **k: usfmexport._Zip()
    from BibleOrgSys.Reference.BibleOrganisationalSystems import BibleOrganisationalSystem
    K = BibleOrganisationalSystem('GENERIC-KJV-66-ENG')

class Book(textexports.Book):
    """Also keeps the notes"""
    def __init__(self, sx, BBB): super().__init__(sx, BBB); self.notes = []; self.xrefs = []
    def text(self, lo=2, hi=2, dom=T): return bookmaker.Maker.text(self, lo, hi, dom)
    def add(self, k):
        t = self.text
        if k == 'vn': a, b, c = t(), t(), t(1, 1); self.verse('%s\\f + \\fr 1:1 \\ft %s\\f*%s' % (a, b, c), a + c); self.notes.append((self.n, b))
        elif k == 'vx': a, b, c = t(), t(1, 1, 'ab'), t(1, 1); self.verse('%s\\x - \\xo 1:1 \\xt Gen 1:3 %s\\x*%s' % (a, b, c), a + c); self.xrefs.append('Gen 1:3 ' + b)
        elif k == 'vx2': a, b, c = t(), t(1, 1, 'ab'), t(1, 1); self.verse('\\x - \\xo 1:1 \\xt Gen 1:3; Exo 2:4\\x*%s\\x - \\xt %s\\x* %s' % (a, b, c), a + ' ' + c); self.xrefs += ['Gen 1:3', 'Exo 2:4', b]
        elif k == 'vnq':
            a, b, c, d = t(1, 1), t(1, 1), t(1, 1), t(1, 1)
            self.verse('%s\\f + \\fr 1:1 \\fq %s \\ft %s\\f*%s' % (a, b, c, d), a + d); self.notes.append((self.n, b + ' ' + c))
        elif k == 'vn2':
            a, b, c, d = t(1, 1), t(1, 1), t(1, 1), t(1, 1)
            self.verse('%s\\f + \\fr 1:1 \\ft %s\\f* %s\\f + \\fr 1:1 \\ft %s\\f*' % (a, b, c, d), a + ' ' + c); self.notes += [(self.n, b), (self.n, d)]
        elif k == 'v-': n, m = self.v + 1, self.sx.choice('b%d' % self.n, (1, 2)); self.verse(t(), number='%d-%d' % (n, n + m)); self.v += m
        elif k == 'v>': self.v += self.sx.choice('g%d' % self.n, (1, 2)); self.verse(t()) # verses before it are missing
        elif k in ('mt2', 'mt3', 'ms2', 's3', 'sr', 'mr'): a = t(); self.lines.append((k, a)); self.heads.append((k, a))
        elif k == 'c>': self.c += 1; self.add('c')
        elif k[-1] == '/': self.add(k[:-1]); self.add('p')
        else: super().add(k)

def norm(s): return ' '.join(s.split())

BREAKS = ('CM', 'CL', 'CI', 'PI', 'PI2', 'PI3', 'PI4', 'PI5', 'PI6', 'PI7', 'pb/', 'br/')
class Row:
    """What is in the line for a verse: text, numbers, heads, notes, xrefs"""
    def __init__(self, sx, line, rtf):
        self.numbers = []; self.heads = []; self.notes = []; self.xrefs = []
        out = ['']; into = []
        def put(s): out[0] += s
        def begin(kind): into.append((kind, out[0])); out[0] = ''
        def end(kind):
            sx.check(len(into) > 0 and into[-1][0] == kind, 'tags match')
            s = out[0]; out[0] = into.pop()[1]
            return s
        while len(line):
            i = self.first(line)
            if i > 0: put(line[:i]); line = line[i:]; continue
            if line[0] == '\\':
                sx.check(rtf, 'no backslashes left')
                hit = [c for c in ('\\line ', '\\b\\i\\f0 ', '\\cf0\\b0\\i0', '\\cf15\\i ', '\\cf0\\i0') if line[:len(c)] == c] or [c for c in ('\\line',) if line == c or line[:6] == c + '\\']
                sx.check(len(hit) > 0, 'known codes only')
                c = hit[0]; line = line[len(c):]
                if c[:5] == '\\line': put(' ')
                elif c == '\\b\\i\\f0 ': begin('h')
                elif c == '\\cf0\\b0\\i0': self.heads.append(end('h'))
                continue
            j = line.find('>'); sx.check(line[0] == '<' and j > 0, 'tags are closed')
            tag = line[1:j]; line = line[j + 1:]
            if tag in ('TS1', 'TS2', 'TS3', 't'): begin('h')
            elif tag in ('Ts', '/t'): self.heads.append(end('h'))
            elif tag in ('RF', 'n'): begin('n')
            elif tag in ('Rf', '/n'): self.notes.append(end('n'))
            elif tag == 'sup': begin('s')
            elif tag == '/sup': self.numbers.append(end('s')); put(' ')
            elif tag[:3] == 'RX ': self.xrefs.append(tag[3:])
            elif tag in BREAKS: put(' ')
            else: sx.check(tag in ('FI', 'Fi', 'FO', 'Fo', 'FR', 'Fr', 'b', '/b', 'i', '/i', 'font size=-1', '/font', 'J', '/J'), 'known tags only')
        sx.check(not into, 'tags are closed')
        self.text = norm(out[0].replace('\u2022', ' '))
    def first(self, line):
        i, j = line.find('<'), line.find('\\')
        if i < 0: return j if j >= 0 else len(line)
        return min(i, j) if j >= 0 else i

NUMBERS = {'JDE': 65, 'JN3': 64, 'PHM': 57, 'JNA': 32, 'TI2': 55, 'REV': 66, 'OBA': 31}
MYBIBLE = {'JDE': 720, 'JN3': 710, 'PHM': 640, 'JNA': 390, 'TI2': 620, 'REV': 730, 'OBA': 380}
CODES = {v: k for k, v in NUMBERS.items()}; MYCODES = {v: k for k, v in MYBIBLE.items()}
def rows(sx, fmt, B, bs):
    """{(BBB, C, V): line} of the module"""
    out = {}
    method, ext = {'tw': ('totheWord', None), 'ms': ('toMySword', 'bbl.mybible'), 'es': ('toESword', 'bblx'), 'mb': ('toMyBible', 'SQLite3')}[fmt]
    from pathlib import Path
    sx.outPath('unused')
    d = sx.scratchDir()
    q = sx.attempt(getattr(B, method), Path(d))
    sx.check(q.ok and q.value is True, 'the export succeeds')
    old = any(b.BBB in ('JNA', 'OBA') for b in bs); new = any(b.BBB not in ('JNA', 'OBA') for b in bs)
    if fmt == 'tw':
        text = sx.readBack('%s/TST.%s' % (d, 'ont' if old and new else 'ot' if old else 'nt'))
        sx.check(text[:1] == '\ufeff', 'the byte order mark'); text = text[1:]
        n = 0; at = {}
        for BBB in K.getBookList():
            if (BBB in ('JNA', 'OBA') or NUMBER(BBB) < 40) and not old or NUMBER(BBB) >= 40 and not new: continue
            for C, m in enumerate(K.getNumVersesList(BBB)):
                for V in range(m): at[n] = (BBB, C + 1, V + 1); n += 1
        L = text.split('\n')
        if len(L[-1]) == 0: L.pop()
        sx.check(len(L) >= n, 'a line for every verse')
        for i, l in enumerate(L):
            if i < n:
                if type(l) is str and l in ('', '(-)'): continue
                if len(l) == 3 and l == '(-)' or len(l) == 0: continue
                out[at[i]] = l
            else: sx.check('=' in l, 'settings after the verses')
        return out
    if fmt == 'mb':
        for num, c, v, l in sx.table('%s/TST.%s' % (d, ext), 'verses'):
            sx.check(num in MYCODES, 'the number of the book'); k = (MYCODES[num], c, v)
            sx.check(k not in out, 'one row for each verse'); out[k] = l
        sx.check([r[1] for r in sx.table('%s/TST.%s' % (d, ext), 'books_all')] == [MYBIBLE[b.BBB] for b in bs], 'the books of the module')
        return out
    for num, c, v, l in sx.table('%s/TST.%s' % (d, ext), 'Bible'):
        sx.check(num in CODES, 'the number of the book'); k = (CODES[num], c, v)
        sx.check(k not in out, 'one row for each verse'); out[k] = l
    (info,) = sx.table('%s/TST.%s' % (d, ext), 'Details')
    sx.check((bool(info[7]), bool(info[8])) == (old, new), 'the testaments')
    return out
def NUMBER(BBB):
    from BibleOrgSys import BibleOrgSysGlobals as G
    return G.loadedBibleBooksCodes.getReferenceNumber(BBB)

MOVED = {('JN3', 1, 15): 14, ('REV', 12, 18): 17} # in the King James version these are parts of the verse before
HEADS = {'tw': ('mt1', 'mt2', 'mt3', 's1', 's2', 's3', 'ms1', 'ms2', 'sr', 'mr', 'r', 'd'), 'ms': ('mt1', 'mt2', 'mt3', 's1', 's2', 's3', 'ms1', 'ms2', 'sr', 'mr', 'r', 'd'),
         'es': ('mt1', 'mt2', 'mt3', 's1', 's2', 's3', 'ms1', 'ms2', 'sr', 'mr', 'r', 'd'), 'mb': ('s1', 's2', 's3', 'sr', 'mr', 'r', 'd')}
def bare(sx, s):
    """Without the parentheses put round a reference"""
    s = norm(s)
    return s[1:-1] if len(s) > 1 and s[0] == '(' and s[-1] == ')' else s

def compare(sx, fmt, bs):
    B = usfmexport.writer([b.book() for b in bs])
    got = rows(sx, fmt, B, bs)
    for b in bs:
        at = {} # position: [(number, text, is it the first place of the verse)]
        for c, n, pub, pieces in b.verses:
            lo = int(n[:-1]) if n[-1] in 'ab' else int(n.split('-')[0]); hi = int(n.split('-')[1]) if '-' in n else lo
            text = norm(b.whole((c, n, pub, pieces))); was = set()
            for v in range(lo, hi + 1):
                k = (b.BBB, c, MOVED.get((b.BBB, c, v), v))
                if k not in was: at.setdefault(k, []).append((n, text, len(was) == 0)); was.add(k)
        for k in got:
            if k[0] == b.BBB and k not in at:
                r = Row(sx, got[k], fmt == 'es')
                sx.check((r.text == '' or r.text == '(-)') and not (r.heads or r.notes or r.xrefs), 'no text where there is no verse')
        heads, notes, xrefs = [], [], []
        for k, parts in at.items():
            if k[2] > int(K.getNumVersesList(b.BBB)[k[1] - 1]): continue # no such verse in their versification
            whole = norm(' '.join([t for n, t, first in parts])); firsts = norm(' '.join([t for n, t, first in parts if first]))
            if k not in got: sx.check(firsts == '', 'no verse is missing'); continue
            r = Row(sx, got[k], fmt == 'es')
            if not any(first for n, t, first in parts):
                sx.check(sx.either(r.text == '', r.text == '(-)', sx.same(r.text, whole)), 'the other verses of a bridge'); continue
            sx.check(sx.either(sx.same(r.text, whole), sx.same(r.text, firsts)), 'the text of the verse')
            shown = [('(%s)' % n, first) for i, (n, t, first) in enumerate(parts) if i > 0 or n != str(k[2])]
            sx.check(r.numbers == [n for n, f in shown] or r.numbers == [n for n, f in shown if f], 'other numbers of verses are shown')
            heads += r.heads; notes += r.notes; xrefs += r.xrefs
        want = [t for m, t in b.heads if m in HEADS[fmt]]
        sx.check(len(heads) == len(want), 'all the headings')
        for h, w in zip(heads, want): sx.check(sx.either(sx.same(norm(h), norm(w)), sx.same(norm(h), '(' + norm(w) + ')')), 'the text of the heading')
        if fmt != 'es':
            sx.check(len(notes) == len(b.notes), 'all the notes')
            for h, (_, w) in zip(notes, b.notes): sx.check(sx.same(norm(h), norm(w)), 'the text of the note')
        if fmt in ('tw', 'ms'):
            sx.check(len(xrefs) == len(b.xrefs), 'all the cross-references')
            for h, w in zip(xrefs, b.xrefs): sx.check(sx.same(norm(h), norm(w)), 'the text of the cross-reference')
    sx.check([k for k in got if k[0] not in [b.BBB for b in bs]] == [], 'no text for other books')

def lines(sx, fmt, kinds, BBB='JDE', start=0):
    b = Book(sx, BBB)
    for i, k in enumerate(kinds):
        if k == 'c' and start: b.c = start - 1
        b.add(sx.choice('k%d' % i, k) if isinstance(k, tuple) else k)
    compare(sx, fmt, [b])

def late(sx, fmt, BBB, c, v, kinds):
    """Verses from c:v onwards only"""
    b = Book(sx, BBB); b.c = c - 1; b.add('c'); b.add('p'); b.v = v - 1
    for i, k in enumerate(kinds): b.add(sx.choice('k%d' % i, k) if isinstance(k, tuple) else k)
    compare(sx, fmt, [b])

def several(sx, fmt, BBBs):
    bs = []
    for i, BBB in enumerate(BBBs):
        b = Book(sx, BBB); b.n = 20 * i
        for k in ('c', 'p', 'v', 'v'): b.add(k)
        bs.append(b)
    compare(sx, fmt, bs)

VERSES = ('v', 'v-', 'va', 'v0', 'vn', 'vx', 'vch', 'vnd', 'v>')
MIDDLES = ('p', 'm', 'q1', 'b', 's1', 'ms1', 's2', 'ms2', 's3', 'sr', 'mr', 'li1+', 'q1+', 'p+', 'q2+', 'pi1+', 'm+', 'nb+')
def cases(tier):
    out = []
    for f in ('tw', 'ms', 'es', 'mb'):
        H = ('r/', 'd/'); M = MIDDLES + VERSES
        N = ('vn2', 'vn', 'vnq', 'vx2', 'vx') if f != 'es' else ('vn2', 'vx2')
        out += [('%s beginning' % f, lines, dict(fmt=f, kinds=('h', 'mt1', ('mt2', 'mt3', 'ip', 'rem'), 'c', ('p', 's1/', 'q1'), 'v'))),
                ('%s verses' % f, lines, dict(fmt=f, kinds=('c', 'p', VERSES, ('v', 'v-', 'vx', 'v>')))),
                ('%s after a verse' % f, lines, dict(fmt=f, kinds=('c', ('p', 's1', 'q1'), 'v', MIDDLES + H + ('rem',), 'v'))),
                ('%s before a chapter' % f, lines, dict(fmt=f, BBB='JNA' if f != 'tw' else 'TI2', kinds=('c', 'p', 'v', ('p', 'q1+', 's1', 'v0', 'v-'), 'c', ('p', 's1', 'q1'), 'v'))),
                ('%s notes' % f, lines, dict(fmt=f, kinds=('c', 'p', N, N))),
                ('%s several' % f, several, dict(fmt=f, BBBs=('PHM', 'JDE'))),
                ('%s both testaments' % f, several, dict(fmt=f, BBBs=('OBA', 'JN3'))),
                ('%s end of a book' % f, late, dict(fmt=f, BBB='JDE', c=1, v=23, kinds=(('v', 'v>'), ('v', 'p+', 'q1+')))),
                ('%s last verse' % f, late, dict(fmt=f, BBB='JDE', c=1, v=25, kinds=(('v', 'vn', 'vnd'), ('p+', 'q1+', 'li1+', 's1')))),
                ('%s last chapter' % f, late, dict(fmt=f, BBB='TI2', c=3, v=16, kinds=('v', ('v', 'p+'), 'c', 'p', 'v'))),
                ('%s JN3' % f, late, dict(fmt=f, BBB='JN3', c=1, v=13, kinds=(('v', 'v-', 'v>'), ('v', 'v-', 'p+'))) ),
                ('%s REV' % f, late, dict(fmt=f, BBB='REV', c=12, v=16, kinds=(('v', 'v-', 'v>'), ('v', 'v-')))),
                ('%s character markers' % f, lines, dict(fmt=f, kinds=('c', 'p', ('char', 'nested'), 'v')))]
        if tier == 'thorough': out += [('T %s two' % f, lines, dict(fmt=f, kinds=('c', 'p', 'v', M, M, 'v'))), ('T %s verses' % f, lines, dict(fmt=f, kinds=('c', 'p', VERSES, VERSES, VERSES))),
                ('T %s three' % f, lines, dict(fmt=f, kinds=('c', 'p', 'v', MIDDLES, MIDDLES, MIDDLES))), ('T %s chapters' % f, lines, dict(fmt=f, BBB='TI2', kinds=('c', 'p', 'v', M, 'c', M, 'v')))]
    return out
