"""P34: loading modules of Bible programs (theWord, MySword, e-Sword, MyBible) keeps every verse at its place with its whole text."""
import os
from harness import common, bookmaker
from harness.xmlimports import norm, squash
PROPERTY = 'P34'
ASSUMPTIONS = ['texts without angle brackets, backslashes, braces and the other characters which the formats use for their codes', 'the codes in the shapes of the test (well-formed, not nested unless listed)', 'in symbolic runs sqlite3 is a small in-memory stand-in for the statements used (replays use the real one)']
OUTSIDE = 'codes not in the shapes of the test (joined: a start code, a code in the middle and one at the end); Strong numbers and morphology of theWord; e-Sword rows in HTML, old versions of e-Sword tables; MyBible commentaries and dictionaries, old book tables, books the preload does not recognise; encrypted modules; white space; whether verses without text and paragraphs between chapters are in the book; books other than those of the tests'
T = [(0x21, 0x21), (0x24, 0x25), (0x27, 0x29), (0x2c, 0x2e), (0x30, 0x3b), (0x3f, 0x3f), (0x41, 0x5a), (0x61, 0x7a), (0xe9, 0xe9), (0x2019, 0x2019)]
PLAIN = [(0x41, 0x5a), (0x61, 0x7a), (0xe9, 0xe9), (0x2019, 0x2019)]

def setup():
    global M, K, G
    G = bookmaker.common.preload()
    bookmaker.setup()
    from BibleOrgSys.Formats import theWordBible, MySwordBible, ESwordBible, MyBibleBible
    from BibleOrgSys.Reference.BibleOrganisationalSystems import BibleOrganisationalSystem
    M = {'tw': theWordBible.theWordBible, 'ms': MySwordBible.MySwordBible, 'es': ESwordBible.ESwordBible, 'mb': MyBibleBible.MyBibleBible}
    K = BibleOrganisationalSystem('GENERIC-KJV-66-ENG')

PARA = ('p', 'm', 'q1', 'q2', 'q3', 'q4', 'b', 'qm')
NUMBERS = {'PHM': 57, 'TI2': 55, 'JDE': 65, 'MAT': 40, 'REV': 66, 'OBA': 31, 'JNA': 32, 'GEN': 1, 'MAL': 39}
MYBIBLE = {'PHM': (640, 'Phm', 'Philemon'), 'TI2': (620, '2Tim', '2 Timothy'), 'JDE': (720, 'Jude', 'Jude'), 'MAT': (470, 'Mat', 'Matthew'), 'OBA': (380, 'Obad', 'Obadiah'), 'JNA': (390, 'Jonah', 'Jonah')}
class Module:
    """The rows of the module, and the lines expected for them.  want: {BBB: [(marker, text)]}"""
    def __init__(self, sx, fmt, start): self.sx = sx; self.fmt = fmt; self.n = 0; self.special = None; self.rows = []; self.want = {}; self.BBB = None; self.go(start); self.pending = None; self.first = True
    def text(self, lo=2, hi=2, dom=None):
        self.n += 1
        return self.sx.string('t%d' % self.n, lo, hi, dom or (T if self.n == self.special else PLAIN))
    def put(self, m, t=''): self.want[self.BBB].append((m, t))
    def go(self, place):
        B, C, V = place
        if B != self.BBB: self.BBB = B; self.want.setdefault(B, []); self.c = 0; self.pending = None
        self.newC = C != self.c; self.c, self.v = C, V
        if self.newC: self.pending = None
    def move(self, m):
        B, C, V = self.BBB, self.c, self.v
        n = K.getNumVersesList(B)
        if m == 'next' and V == n[C - 1]: m = 'chapter'
        if m == 'next': V += 1
        elif m == 'gap': V += 3
        elif m == 'chapter': C += 1; V = 1
        elif m == 'chapter2': C += 1; V = 2
        elif m == 'end': V = n[C - 1]
        elif m == 'last': C = len(n); V = n[-1]
        else: B = m; C = V = 1
        self.go((B, C, V))
    def add(self, shape):
        a, b, c = self.text(1, 1), self.text(), self.text(1, 1); v = str(self.v)
        start = (self.c, self.v) == (1, 1)
        if start and shape == 'head': shape = 'rtf'
        raw, lines, after = SHAPES[self.fmt][shape](self.sx, self.n, a, b, c, start)
        if start and lines and lines[0][0][:2] == 'mt':
            while lines and lines[0][0][:2] in ('mt', 'r'): self.put(*lines[0]); lines = lines[1:]
        if self.newC: self.put('c', str(self.c)); self.newC = False
        if self.pending and self.v > 1 and not (lines and lines[0][0] in PARA + ('s1', 's2', 's3', 'r')): self.put(self.pending)
        self.pending = after
        for m, t in lines: self.put(m, v + ' ' + t if m == 'v' else t)
        self.rows.append((self.BBB, self.c, self.v, raw))

def R(raw, *lines, after=None): return raw, list(lines), after
def char(code, end, m): return lambda sx, n, a, b, c, s: R(a + ' ' + code + b + end + ' ' + c, ('v', '%s \\%s %s\\%s* %s' % (a, m, b, m, c)))
def char0(code, end, m): return lambda sx, n, a, b, c, s: R(code + b + end + ' ' + c, ('v', '\\%s %s\\%s* %s' % (m, b, m, c)))
def mid(code, m): return lambda sx, n, a, b, c, s: R(a + code + b, ('v', a), (m, b))
def at0(code, m): return lambda sx, n, a, b, c, s: R(code + b, (m, ''), ('v', b))
def endp(code, m='p'): return lambda sx, n, a, b, c, s: R(b + code, ('v', b), after=m)
def note(code, end, extra=''): return lambda sx, n, a, b, c, s: R(a + code + b + end + ' ' + c, ('v', '%s\\f + \\ft %s\\f* %s' % (a, b, c)))
def fill(x, a, b, c):
    parts = x.split('%('); out = parts[0]
    for p in parts[1:]: out = out + {'a': a, 'b': b, 'c': c}[p[0]] + p[3:]
    return out
def lead(x, y): return lambda sx, n, a, b, c, s: R(fill(x, a, b, c), *[(m, fill(t, a, b, c)) for m, t in y(s)])
plain = lambda sx, n, a, b, c, s: R(b, ('v', b))
def h(s, i): return ('mt%d' if s else 's%d') % i
TW = {'plain': plain, 'FI': char('<FI>', '<Fi>', 'add'), 'FO': char('<FO>', '<Fo>', 'qt'), 'FR': char('<FR>', '<Fr>', 'wj'), 'b': char('<b>', '</b>', 'bd'), 'i': char('<i>', '</i>', 'it'), 'sup': char('<sup>', '</sup>', 'ord'),
      'FI0': char0('<FI>', '<Fi>', 'add'), 'FR0': char0('<FR>', '<Fr>', 'wj'), 'small': char('<font size=-1>', '</font>', 'sc'), 'red': lead('%(a)s <font color=red>%(b)s</font> %(c)s', lambda s: [('v', '%(a)s %(b)s %(c)s')]),
      'RF': note('<RF>', '<Rf>'), 'RFq': lead('%(a)s<RF q=*>%(b)s<Rf> %(c)s', lambda s: [('v', '%(a)s\\f * \\ft %(b)s\\f* %(c)s')]), 'RX': lead('%(a)s<RX 1.2.3> %(b)s', lambda s: [('v', '%(a)s %(b)s')]), 'RXs': lead('%(a)s<RX 1.2.3-4> %(b)s', lambda s: [('v', '%(a)s %(b)s')]),
      'CM': endp('<CM>'), 'CI': endp('<CI>'), 'CL': endp('<CL>'), 'mCM': mid('<CM>', 'p'), 'mCL': mid('<CL>', 'm'), 'mCI': mid('<CI>', 'p'), 'br': mid('<br>', 'm'), 'mCIPI': mid('<CI><PI>', 'q1'), 'mCIPI2': mid('<CI><PI2>', 'q2'), 'mPI2': mid('<PI2>', 'q2'), 'mCMPI': mid('<CM><PI>', 'q1'), 'mCIPF1': mid('<CI><PF1>', 'p'),
      'PF0': at0('<PF0>', 'q1'), 'PI': at0('<PI>', 'q1'), 'PI1': at0('<PI1>', 'q1'), 'PI2': at0('<PI2>', 'q2'), 'PI3': at0('<PI3>', 'q3'), 'PF1': at0('<PF1>', 'q1'),
      'TS1': lead('<TS1>%(a)s<Ts>%(b)s', lambda s: [(h(s, 1), '%(a)s'), ('v', '%(b)s')]), 'TS': lead('<TS>%(a)s<Ts>%(b)s', lambda s: [(h(s, 1), '%(a)s'), ('v', '%(b)s')]), 'TS2': lead('<TS2>%(a)s<Ts>%(b)s', lambda s: [(h(s, 2), '%(a)s'), ('v', '%(b)s')]), 'TS1n': lead('<TS1>%(a)s<Ts1>%(b)s', lambda s: [(h(s, 1), '%(a)s'), ('v', '%(b)s')]),
      'TSTS': lead('<TS1>%(a)s<Ts><TS2>%(b)s<Ts>%(c)s', lambda s: [(h(s, 1), '%(a)s'), (h(s, 2), '%(b)s'), ('v', '%(c)s')]), 'mTS': lead('%(a)s<TS1>%(b)s<Ts>%(c)s', lambda s: [('v', '%(a)s'), ('s1', '%(b)s'), ('v~', '%(c)s')]),
      'TSr': lead('<TS1>%(a)s<Ts><TS3><i>(%(b)s)</i><Ts>%(c)s', lambda s: [(h(s, 1), '%(a)s'), ('r', '(%(b)s)'), ('v', '%(c)s')]),
      'TSFI': lead('<TS1>%(a)s<Ts><FI>%(b)s<Fi> %(c)s', lambda s: [(h(s, 1), '%(a)s'), ('v', '\\add %(b)s\\add* %(c)s')]), 'PIPI2': lead('<PI>%(a)s<CI><PI2>%(b)s<CI><PI>%(c)s', lambda s: [('q1', ''), ('v', '%(a)s'), ('q2', '%(b)s'), ('q1', '%(c)s')]),
      'FICM': lead('%(a)s<CM>%(b)s <FI>%(c)s<Fi>', lambda s: [('v', '%(a)s'), ('p', '%(b)s \\add %(c)s\\add*')]), 'empty': lambda sx, n, a, b, c, s: R('')}
def es0(sx, n, a, b, c, s): return R(b, ('v', b))
START = '\\uc1 '
def es(x, *y): return lead(START + x, lambda s: [(m, t) for m, t in y])
ES = {'plain': plain, 'rtf': es('%(b)s', ('v', '%(b)s')), 'bare': lead('\\viewkind4\\uc1\\pard\\cf1\\f0 %(b)s', lambda s: [('v', '%(b)s')]), 'i': es('%(a)s {\\i %(b)s} %(c)s', ('v', '%(a)s \\it %(b)s\\it* %(c)s')), 'b': es('%(a)s {\\b %(b)s} %(c)s', ('v', '%(a)s \\bd %(b)s\\bd* %(c)s')), 'i0': es('{\\i %(b)s} %(c)s', ('v', '\\it %(b)s\\it* %(c)s')),
      'add': es('%(a)s \\cf14 %(b)s\\cf0  %(c)s', ('v', '%(a)s \\add %(b)s\\add* %(c)s')), 'cf15': es('%(a)s {\\cf15 %(b)s} %(c)s', ('v', '%(a)s \\add %(b)s\\add* %(c)s')), 'par': es('%(a)s\\par %(b)s', ('v', '%(a)s'), ('p', '%(b)s')), 'parEnd': lead(START + '%(b)s\\par', lambda s: [('v', '%(b)s'), ('p', '')]), 'parpar': es('%(a)s\\par\\par %(b)s', ('v', '%(a)s'), ('p', '%(b)s')),
      'line': es('%(a)s\\line %(b)s', ('v', '%(a)s'), ('v~', '%(b)s')), 'lineEnd': es('%(b)s\\line', ('v', '%(b)s')), 'head': es('\\b\\i\\f0 %(a)s\\cf0\\b0\\i0\\line %(b)s', ('s1', '%(a)s'), ('v', '%(b)s')), 'm': es('%(a)s\\m %(b)s', ('v', '%(a)s'), ('m', '%(b)s')),
      'hex': es("%(a)s\\'e9%(b)s", ('v', '%(a)s\u00e9%(b)s')), 'u': es('%(a)s\\u945?%(b)s', ('v', '%(a)s\u03b1%(b)s')), 'quotes': es('%(a)s \\ldblquote %(b)s\\rdblquote  %(c)s', ('v', '%(a)s \u201c%(b)s\u201d %(c)s')), 'empty': lambda sx, n, a, b, c, s: R('')}
def mb(m, e, k): return char(m, e, k)
MB = {'plain': plain, 'i': char('<i>', '</i>', 'add'), 'i0': char0('<i>', '</i>', 'add'), 'b': char('<b>', '</b>', 'bd'), 'e': char('<e>', '</e>', 'em'), 'J': char('<J>', '</J>', 'wj'), 'J0': char0('<J>', '</J>', 'wj'), 'n': note('<n>', '</n>'), 'n{': note('<n>{', '}</n>'), 'S': lead('%(a)s<S>%(c)s</S> %(b)s', lambda s: [('v', '%(a)s\\str %(c)s\\str* %(b)s')]),
      'br': mid('<br/>', 'm'), 'pb': mid('<pb/>', 'p'), 'p': mid('<p>', 'p'), 'pb0': at0('<pb/>', 'p'), 'br0': at0('<br/>', 'm'), 't0': lead('<t>%(b)s</t>%(c)s', lambda s: [('qm', ''), ('v', '%(b)s'), ('m', '%(c)s')]), 'pbJ': lead('<pb/><J>%(b)s</J> %(c)s', lambda s: [('p', ''), ('v', '\\wj %(b)s\\wj* %(c)s')]), 't': lead('%(a)s<t>%(b)s</t>%(c)s', lambda s: [('v', '%(a)s'), ('qm', '%(b)s'), ('m', '%(c)s')]), 'JS': lead('<J>%(a)s<S>7</S> %(b)s</J> <i>%(c)s</i>', lambda s: [('v', '\\wj %(a)s\\str 7\\str* %(b)s\\wj* \\add %(c)s\\add*')]),
      'end': lead('%(b)s<BR>', lambda s: [('v', '%(b)s')]), 'empty': lambda sx, n, a, b, c, s: R('')}
# Rows put together: start code, first part, middle code, second part, end code
TWPARTS = dict(start=(('', None), ('<PI>', 'q1'), ('<PI2>', 'q2'), ('<PF0>', 'q1'), ('<TS1>%(c)s<Ts>', 'h')), mid=(('<CM>', 'p'), ('<CL>', 'm'), ('<CI><PI>', 'q1'), ('<PI2>', 'q2'), ('<br>', 'm'), ('<TS1>%(c)s<Ts>', 's1')),
               part=(('%s', '%s'), ('<FI>%s<Fi>', '\\add %s\\add*'), ('x <FR>%s<Fr>', 'x \\wj %s\\wj*'), ('%s<RF>x<Rf>', '%s\\f + \\ft x\\f*')), end=(('', None), ('<CM>', 'p'), ('<CI>', 'p')))
MBPARTS = dict(start=(('', None), ('<pb/>', 'p'), ('<br/>', 'm')), mid=(('<br/>', 'm'), ('<pb/>', 'p')), part=(('%s', '%s'), ('<i>%s</i>', '\\add %s\\add*'), ('x <J>%s</J>', 'x \\wj %s\\wj*'), ('%s<n>x</n>', '%s\\f + \\ft x\\f*'), ('%s<S>7</S>', '%s\\str 7\\str*')), end=(('', None),))
PARTS = {'tw': TWPARTS, 'ms': TWPARTS, 'mb': MBPARTS}
def put1(x, t): i = x.index('%s'); return x[:i] + t + x[i + 2:]
def combined(fmt, parts):
    def shape(sx, n, a, b, c, s):
        P = PARTS[fmt]
        (st, sm), (mi, mm), (en, em) = (sx.choice('%s%d' % (k, n), P[k]) for k in ('start', 'mid', 'end'))
        (r1, l1), (r2, l2) = (sx.choice('%s%d' % (k, n), P['part'] if parts else P['part'][:2]) for k in ('part1', 'part2'))
        d = sx.string('d%d' % n, 1, 1, PLAIN)
        raw = fill(st, d, d, d) + put1(r1, a) + fill(mi, c, c, c) + put1(r2, b) + en
        lines = [] if sm is None else [(h(s, 1), d)] if sm == 'h' else [(sm, '')]
        lines.append(('v', put1(l1, a)))
        if mm == 's1': lines += [(h(s and (st + put1(r1, ''))[0] == '<', 1), c), ('v~', put1(l2, b))]
        else: lines.append((mm, put1(l2, b)))
        return raw, lines, em
    return shape
for k, S in (('tw', TW), ('mb', MB)): S['combined'] = combined(k, False); S['combined+'] = combined(k, True)
SHAPES = {'tw': TW, 'ms': TW, 'es': ES, 'mb': MB}

def tidy(L):
    """Without verses which have no text, chapters without verses, paragraphs which nothing follows, and the number of paragraphs before the verses.
    L: [(marker, clean text, adjusted text, notes)]"""
    out = []
    for i, x in enumerate(L):
        if x[0] == 'v':
            follow = L[i + 1] if i + 1 < len(L) else None
            if follow is None or follow[0] not in ('v~', 'p~') and follow[0] not in PARA: continue
            if follow[0] in PARA and not (i + 2 < len(L) and L[i + 2][0] in ('p~', 'v~')): continue
        out.append(x)
    changed = True
    while changed:
        changed = False
        for i in range(len(out) - 1, -1, -1):
            m = out[i][0]; nxt = out[i + 1][0] if i + 1 < len(out) else None
            if m == 'c' and nxt in ('c', None) or m in PARA and nxt in ('c', None) + PARA or m in PARA and nxt in ('s1', 's2', 's3', 'r'): del out[i]; changed = True
            elif m in PARA and i and out[i - 1][0] == 'c' and m in ('p', 'm'): del out[i]; changed = True
    return out
def listing(b):
    out = []
    for e in bookmaker.content(bookmaker.entries(b)):
        if e.getMarker() == 'id': continue
        out.append((e.getMarker(), e.getCleanText() or '', e.getAdjustedText() or '', [(n.getType(), n.getCleanText()) for n in e.getExtras() or []]))
    return out
def compareBook(sx, new, lines, norm):
    new.processLines() if not new._processedFlag else None
    want = tidy(listing(bookmaker.book(lines, new.BBB, new.objectTypeString)))
    have = tidy(listing(new))
    sx.check([x[0] for x in have] == [x[0] for x in want], 'the markers')
    for x, y in zip(want, have):
        sx.check(sx.same(norm(x[1]), norm(y[1])), 'the texts')
        sx.check(sx.same(squash(x[2]), squash(y[2])), 'the texts with their character markers')
        sx.check([t for t, _ in x[3]] == [t for t, _ in y[3]], 'the notes')
        for m, n in zip(x[3], y[3]): sx.check(sx.same(norm(m[1]), norm(n[1])), 'the texts of the notes')

DET = ['Description NVARCHAR(255)', 'Abbreviation NVARCHAR(50)', 'Comments TEXT', 'Version TEXT']
def module(sx, m, whole=False):
    """The loaded Bible"""
    sx.file('unused', []); d = sx.scratchDir()
    old = any(NUMBERS[B] < 40 for B, _, _, _ in m.rows); new = any(NUMBERS[B] >= 40 for B, _, _, _ in m.rows)
    if m.fmt == 'tw':
        names = [B for B in K.getBookList() if old and NUMBER(B) < 40 or new and NUMBER(B) >= 40]
        at = {}
        for B in names:
            for C, n in enumerate(K.getNumVersesList(B)):
                for V in range(n): at[(B, C + 1, V + 1)] = len(at)
        L = [''] * len(at)
        for B, C, V, raw in m.rows: L[at[(B, C, V)]] = raw
        a = m.text()
        L += ['', '# a comment', 'short.title=TST', 'description=' + a, 'about=x \\', 'y']
        if whole and sx.bool('bom'): L[0] = '\ufeff' + L[0]
        path = sx.file('Test.' + ('ont' if old and new else 'ot' if old else 'nt'), L)
        X = M['tw'](os.path.dirname(path), os.path.basename(path))
        q = sx.attempt(X.load)
        sx.check(q.ok, 'the module is loaded')
        sx.check('theWord' in X.suppliedMetadata and sx.same(X.suppliedMetadata['theWord'].get('description', ''), a), 'the information after the verses')
        return X
    if m.fmt == 'mb':
        books = []
        for B, _, _, _ in m.rows:
            if B not in books: books.append(B)
        path = sx.database('x.SQLite3', {'info': (['name TEXT', 'value TEXT'], [('language', 'en'), ('description', 'Test')]),
                                       'books_all': (['book_number NUMERIC', 'short_name TEXT', 'long_name TEXT', 'title TEXT', 'book_color TEXT', 'is_present NUMERIC'], [MYBIBLE[B] + (MYBIBLE[B][2], '#ff7c80', 1) for B in books]),
                                       'verses': (['book_number NUMERIC', 'chapter NUMERIC', 'verse NUMERIC', 'text TEXT'], [(MYBIBLE[B][0], C, V, raw) for B, C, V, raw in m.rows])})
        X = M['mb'](os.path.dirname(path), os.path.basename(path))
        q = sx.attempt(X.preload); sx.check(q.ok, 'the information of the module')
        q = sx.attempt(X.loadBooks); sx.check(q.ok, 'the module is loaded')
        return X
    bible = (['Book INT', 'Chapter INT', 'Verse INT', 'Scripture TEXT'], [(NUMBERS[B], C, V, raw) for B, C, V, raw in m.rows])
    if m.fmt == 'ms':
        path = sx.database('x.bbl.mybible', {'Details': (DET + ['VersionDate DATETIME', 'PublishDate DATETIME', 'RightToLeft BOOL', 'OT BOOL', 'NT BOOL', 'Strong BOOL'], [('Test', 'TST', '', '', '', '', 0, int(old), int(new), 0)]), 'Bible': bible})
    else:
        path = sx.database('x.bblx', {'Details': (DET + ['Font TEXT', 'RightToLeft BOOL', 'OT BOOL', 'NT BOOL', 'Apocrypha BOOL', 'Strong BOOL'], [('Test', 'TST', '', '', '', 0, int(old), int(new), 0, 0)]), 'Bible': bible})
    X = M[m.fmt](os.path.dirname(path), os.path.basename(path))
    q = sx.attempt(X.preload); sx.check(q.ok, 'the information of the module')
    if whole: q = sx.attempt(X.load); sx.check(q.ok, 'the module is loaded')
    else:
        for B in m.want: q = sx.attempt(X.loadBook, B); sx.check(q.ok, 'the book is loaded')
    return X
def NUMBER(B): return G.loadedBibleBooksCodes.getReferenceNumber(B)

def load(sx, fmt, shapes, moves, start=('JDE', 1, 1), whole=False, special=None):
    if type(start) is list: start = sx.choice('start', tuple(start))
    m = Module(sx, fmt, start); m.special = special
    for i, s in enumerate(shapes):
        if i:
            v = moves[i - 1]
            if isinstance(v, tuple): v = sx.choice('m%d' % i, v)
            m.move(v)
        if isinstance(s, tuple): s = sx.choice('s%d' % i, s)
        m.add(s)
    if not any(len(r[3]) for r in m.rows): m.move('next'); m.add('plain')
    X = module(sx, m, whole)
    got = [b.BBB for b in X]
    want = [B for B in m.want if any(len(r[3]) for r in m.rows if r[0] == B)]
    sx.check(sorted(got) == sorted(want), 'the books of the module')
    for B in want: compareBook(sx, X.books[B], m.want[B], squash if fmt == 'es' else norm)

def cases(tier):
    out = []; deep = tier == 'thorough'
    for fmt in ('ms', 'es', 'mb', 'tw'):
        S = tuple(k for k in SHAPES[fmt] if k[:8] != 'combined')
        n = fmt + ' '
        if fmt == 'tw':
            out += [(n + 'shapes', load, dict(fmt=fmt, shapes=(('plain', 'TS1', 'PI', 'CM') if not deep else S, 'plain'), moves=('next',)))]
            out += [(n + 'places', load, dict(fmt=fmt, shapes=('plain', 'plain', 'plain'), moves=(('gap', 'end'), ('chapter', 'chapter2', 'last', 'JDE')), start=('TI2', 1, 1)))]
            out += [(n + 'ends', load, dict(fmt=fmt, shapes=('plain', 'plain'), moves=('last',), start=[('MAT', 1, 1), ('REV', 1, 1)], whole=True))]
            if deep: out += [(n + 'testaments', load, dict(fmt=fmt, shapes=('plain', 'plain', 'plain'), moves=(('last', 'MAL'), ('MAT',)), start=('GEN', 1, 1)))]
            continue
        out += [(n + 'shapes', load, dict(fmt=fmt, shapes=(S, 'plain'), moves=('next',), start=[('JDE', 1, 1), ('PHM', 1, 3), ('TI2', 2, 1)])),
                (n + 'places', load, dict(fmt=fmt, shapes=('plain', 'plain', 'plain'), moves=(('next', 'gap', 'end'), ('next', 'chapter', 'chapter2', 'last', 'PHM')), start=[('TI2', 1, 1), ('TI2', 2, 3)])),
                (n + 'characters', load, dict(fmt=fmt, shapes=('plain',), moves=(), special=2))]
        if fmt != 'es': out += [(n + 'combined', load, dict(fmt=fmt, shapes=('combined+' if deep else 'combined', 'plain'), moves=('next',), start=[('JDE', 1, 3)] + ([('PHM', 1, 1)] if deep else [])))]
        if fmt != 'mb': out += [(n + 'whole', load, dict(fmt=fmt, shapes=('plain', 'plain', 'plain'), moves=(('last',), ('PHM', 'JDE')), start=[('MAT', 1, 1), ('TI2', 1, 2)], whole=True))]
        if deep: out += [(n + 'pairs', load, dict(fmt=fmt, shapes=(S, S), moves=(('next', 'chapter'),), start=[('TI2', 1, 1), ('TI2', 2, 3)]))]
    return out
