"""P23: searching a loaded Bible finds every occurrence and nothing else."""
from harness import common, bookmaker
PROPERTY = 'P23'
ASSUMPTIONS = ['texts of letters whose lower case has the same length; the text searched for has no digits or backslashes']
OUTSIDE = 'the chapter and verse numbers and headings as places; searching in the text of markers; the order of results other than that of the text'
def setup():
    bookmaker.setup()
A = [(0x20, 0x20), (0x27, 0x27), (0x2c, 0x2e), (0x41, 0x5a), (0x61, 0x7a), (0xc0, 0xff), (0x2019, 0x2019)]   # Latin letters, spaces and punctuation
F = [x for x in A if x[0] not in (0x20,)]
W = [(0x41, 0x41), (0x61, 0x62), (0x2d, 0x2d), (0xe9, 0xe9)]

def positions(sx, text, find, mode, caseless, plain):
    """Where the text is found"""
    n = len(find); out = []
    if plain: text2 = [strip(sx, c) for c in text]; find = [strip(sx, c) for c in find]
    else: text2 = [c for c in text]; find = [c for c in find]
    for i in range(len(text2) - n + 1):
        ok = True
        for j in range(n):
            x, y = text2[i + j], find[j]
            if caseless: x, y = x.lower(), y.lower()
            ok = sx.both(ok, x == y)
        if not ok: continue
        if mode in ('Whole', 'Begins') and i > 0 and text2[i - 1].isalpha(): continue
        if mode in ('Whole', 'EndsWord') and i + n < len(text2) and text2[i + n].isalpha(): continue
        if mode == 'EndsLine' and i + n < len(text2): continue
        out.append(i)
    return out

def strip(sx, c):
    if c == '\u00e9': return 'e'
    if c == '\u00c9': return 'E'
    return c

class Lines:
    """The lines of books with symbolic texts; where: [(BBB, C, V, original marker, text)] in order for the lines that have text"""
    def __init__(self, sx): self.sx = sx; self.lines = []; self.where = []; self.books = []; self.V = '0'; self.C = '-1'; self.n = 0
    def begin(self, BBB): self.BBB = BBB; self.lines = [('id', BBB)]; self.where.append((BBB, '-1', '0', 'id', BBB)); self.V = '0'; self.C = '-1'
    def add(self, marker, text, note=None):
        raw = text if note is None else text + '\\f + \\ft ' + note + '\\f*'
        if self.C == '-1': self.V = str(int(self.V) + 1)
        if marker == 'v': self.lines.append(('v', str(int(self.V) + 1) + ' ' + raw)); self.V = str(int(self.V) + 1)
        elif marker == 'v-': self.lines.append(('v', str(int(self.V) + 1) + '-' + str(int(self.V) + 2) + ' ' + raw)); self.V = str(int(self.V) + 1); marker = 'v'
        else: self.lines.append((marker, raw))
        if text or note: self.where.append((self.BBB, self.C, self.V, marker, text))
    def chapter(self): self.C = str(int(self.C) + 1 if self.C != '-1' else 1); self.V = '0'; self.lines.append(('c', self.C))
    def end(self): self.books.append(bookmaker.book(self.lines, self.BBB))
    def text(self, lo, hi, dom=A):
        self.n += 1
        t = self.sx.string('t%d' % self.n, lo, hi, dom)
        if lo: self.sx.assume(t[0] != ' '); self.sx.assume(t[len(t) - 1] != ' ')
        for i in range(1, len(t)): self.sx.assume(self.sx.either(t[i] != ' ', t[i - 1] != ' '))
        return t

def compare(sx, B, options, where, mode='Any', caseless=True, plain=False, context=30, again=False):
    opts = dict(options)
    r = sx.attempt(B.findText, opts)
    sx.check(r.ok, 'the search is done')
    opt, summary, res = r.value
    find = options['findText']
    want = []; found = []
    for BBB, C, V, marker, text in where:
        for i in positions(sx, text, find, mode, caseless, plain):
            want.append((BBB, C, V, marker, text, i))
            if BBB not in found: found.append(BBB)
    sx.check(len(res) == len(want), 'as many results as there are occurrences')
    n = len(find)
    for x, (BBB, C, V, marker, text, i) in zip(res, want):
        k = x[0]
        sx.check(k.getBBB() == BBB and k.getChapterNumber() == C, 'the book and chapter of each result')
        if marker not in bookmaker.HEADS: sx.check(k.getVerseNumber() == V, 'the verse of each result')
        sx.check(str(k.getVerseIndex()) == str(i), 'the position of each result')
        sx.check(x[1] == marker, 'the marker of each result')
        sx.check(len(x) == (5 if caseless else 4), 'the parts of each result')
        if context:
            sx.check(sx.same(x[2], text[max(0, i - context):i]), 'the context before')
            sx.check(sx.same(x[-1], text[i + n:i + n + context]), 'the context after')
        if caseless: sx.check(sx.same(x[3], text[i:i + n]), 'the form of the word that was found')
    sx.check(summary['foundBookList'] == found, 'the books found in')
    return opt, summary, res

def oneLine(sx, tlen, flen, mode, caseless, tdom=A, fdom=F, plain=False, context=30, marker='v'):
    """Every text in one verse, every text to look for"""
    L = Lines(sx); L.begin('JNA'); L.chapter(); L.add('p', '')
    if marker == 'p': L.add('v', ''); L.add('p', L.text(tlen, tlen, tdom))
    elif marker == 's1': L.add('s1', L.text(tlen, tlen, tdom)); L.add('p', ''); L.add('v', '-')
    else: L.add(marker, L.text(tlen, tlen, tdom))
    L.end()
    f = sx.string('find', flen, flen, fdom)
    o = {'findText': f, 'wordMode': mode, 'contextLength': context}
    if not caseless or sx.choice('given', (True, False)): o['caselessFlag'] = caseless
    if plain: o['ignoreDiacriticsFlag'] = True
    opt, _, _ = compare(sx, bookmaker.bible(L.books), o, L.where, mode, caseless, plain, context)
    sx.check(sx.same(opt['findHistoryList'][-1], f), 'the text is added to the history')

def story(sx, BBBs=('OBA', 'JNA')):
    L = Lines(sx)
    for BBB in BBBs:
        L.begin(BBB)
        if BBB == 'JNA': L.add('ip', L.text(1, 1, W))
        L.chapter(); L.add('s1', L.text(1, 1, W) if len(BBBs) == 1 else 'bA'); L.add('p', ''); L.add('v', L.text(1, 1, W) if BBB == 'JNA' else 'aB'); L.add('q1', L.text(1, 1, W) if BBB == 'JNA' else 'a'); L.add('v-', 'a')
        L.chapter(); L.add('p', ''); L.add('v', 'Ab')
        L.end()
    return L

def selected(sx):
    """Searching only some books, chapters or the text without introduction"""
    L = story(sx); B = bookmaker.bible(L.books)
    o = {'findText': sx.string('find', 1, 1, [(0x61, 0x62)])}
    books = sx.choice('books', ('none', None, 'ALL', 'JNA', ['JNA'], ['OBA', 'JNA'], ['GEN']))
    chapters = sx.choice('chapters', ('none', None, ['1'], [2], ['-1'], ['1', '2']))
    intro = sx.choice('intro', ('none', True, False))
    if books != 'none': o['bookList'] = books
    if chapters != 'none': o['chapterList'] = chapters
    if intro != 'none': o['includeIntroFlag'] = intro
    def wanted(w):
        if books not in ('none', None, 'ALL') and w[0] != books and w[0] not in books: return False
        if chapters not in ('none', None) and w[1] not in chapters and int(w[1]) not in chapters: return False
        return intro is not False or w[1] != '-1'
    opt, summary, res = compare(sx, B, o, [w for w in L.where if wanted(w)])
    sx.check(summary['searchedBookList'] == [b for b in ('OBA', 'JNA') if books in ('none', None, 'ALL') or b == books or b in books], 'the books searched')

def markers(sx, lists):
    """Searching only the lines with given markers, including text in such paragraphs"""
    L = story(sx, ('JNA',)); B = bookmaker.bible(L.books)
    ms = sx.choice('markers', lists)
    flags = sx.choice('flags', (True, False))
    o = {'findText': sx.string('find', 1, 1, [(0x61, 0x62)]), 'markerList': list(ms)}
    if flags: o.update(includeIntroFlag=False, includeMainTextFlag=False, includeMarkerTextFlag=False, includeExtrasFlag=False)
    standard = ['s1' if x == 's' else 'q1' if x == 'q' else x for x in ms]
    where = []; para = None; seen = 0
    for w in L.where:
        m = w[3]
        # the paragraphs of the story: p before the first verse of each chapter, q1 inside chapter 1
        if m == 'q1': p = 'q1'
        elif m == 'v': p = 'q1' if w[1] == '1' and w[2] == '2' else 'p'
        else: p = m
        if p in standard: where.append(w)
    compare(sx, B, o, where)

def notes(sx):
    """Searching the texts of notes, or notes only"""
    L = Lines(sx); L.begin('JNA'); L.chapter(); L.add('p', '')
    t = L.text(1, 1, W); n1 = L.text(1, 1, W); n2 = sx.choice('two', (None, 'Ba'))
    L.add('v', t, n1)
    if n2: L.add('q1', 'b', n2)
    L.add('s1', 'bb'); L.end(); B = bookmaker.bible(L.books)
    main = sx.choice('main', (True, False)); extras = sx.choice('extras', (True, False))
    f = sx.string('find', 1, 1, [(0x61, 0x62)])
    r = sx.attempt(B.findText, {'findText': f, 'includeMainTextFlag': main, 'includeExtrasFlag': extras})
    sx.check(r.ok, 'the search is done')
    res = r.value[2]
    def count(x): return len(positions(sx, x, f, 'Any', True, False))
    want = (count(t) if main else 0) + (count(n1) if extras else 0) + count('bb')
    if n2: want += (count('b') if main else 0) + (count(n2) if extras else 0)
    sx.check(len([x for x in res if x[1] != 'id' and (x[1], x[2][-4:]) != ('v', '\\')]) == want, 'occurrences in texts and notes')

def regex(sx, caseless):
    """Simple regular expressions"""
    L = Lines(sx); L.begin('JNA'); L.chapter(); L.add('p', ''); t = L.text(3, 3); L.add('v', t); L.end(); B = bookmaker.bible(L.books)
    f = sx.choice('find', ('a', 'B', 'Ab', '-', 'a b'))
    r = sx.attempt(B.findText, {'findText': sx.choice('prefix', ('regex:', 'Regex:')) + f, 'caselessFlag': caseless})
    sx.check(r.ok, 'the search is done')
    want = positions(sx, t, f, 'Any', caseless, False)
    sx.check([str(x[0].getVerseIndex()) for x in r.value[2] if x[1] != 'id'] == [str(i) for i in want], 'the places where the expression matches')

def history(sx):
    """The history of searches"""
    L = Lines(sx); L.begin('JNA'); L.chapter(); L.add('p', ''); L.add('v', 'a'); L.end(); B = bookmaker.bible(L.books)
    h = []; want = []
    for i in range(3):
        f = sx.string('f%d' % i, 1, 1, W)
        o = B.findText({'findText': f, 'findHistoryList': h})[0]
        want = [x for x in want if not x == f] + [f]
        sx.check(o['findHistoryList'] is h, 'the given history is used')
        sx.check(len(h) == len(want) and all([sx.same(x, y) for x, y in zip(h, want)]), 'every text once, the newest last')

def cases(tier):
    q = tier == 'quick'
    L = [('any', oneLine, dict(tlen=5, flen=1, mode='Any', caseless=True)), ('any with case', oneLine, dict(tlen=3, flen=2, mode='Any', caseless=False)), ('two letters', oneLine, dict(tlen=3, flen=2, mode='Any', caseless=True, context=1)),
         ('short context', oneLine, dict(tlen=3, flen=1, mode='Any', caseless=True, context=1)), ('no context', oneLine, dict(tlen=2, flen=1, mode='Any', caseless=False, context=0)),
         ('paragraphs', oneLine, dict(tlen=2, flen=1, mode='Any', caseless=True, marker='p')), ('headings', oneLine, dict(tlen=2, flen=1, mode='Any', caseless=True, marker='s1')),
         ('without accents', oneLine, dict(tlen=2, flen=1, mode='Any', caseless=True, plain=True, tdom=[(0x20, 0x20), (0x41, 0x42), (0x61, 0x65), (0xc9, 0xc9), (0xe9, 0xe9)], fdom=[(0x61, 0x61), (0x65, 0x65), (0xe9, 0xe9)]))]
    L += [(m, oneLine, dict(tlen=4, flen=2, mode=m, caseless=True)) for m in ('Whole', 'Begins', 'EndsWord', 'EndsLine')]
    L += [('selection', selected, {}), ('markers', markers, dict(lists=(('s1',), ('q1',), ('p',), ('s', 'q'), ('ip',), ('mt1',)))), ('notes', notes, {}), ('expressions', regex, dict(caseless=True)), ('expressions with case', regex, dict(caseless=False)), ('history', history, {})]
    if not q: L += [('longer ' + m, oneLine, dict(tlen=7, flen=3, mode=m, caseless=True)) for m in ('Any', 'Whole', 'Begins', 'EndsWord', 'EndsLine')]
    return L
