"""P35: what discovery and the checks of a book count and report is what the book contains."""
from harness import common, bookmaker
PROPERTY = 'P35'
ASSUMPTIONS = ['books of well-formed lines: chapters, verses with or without text, paragraphs, headings, section references, closed notes and figures',
               'words of ASCII letters, numbers and the usual punctuation around them', 'logging stands still']
OUTSIDE = ('the wording of messages and the priorities, verses whose text starts on a later paragraph line, the places of lines before the first chapter, '
           'the usual paragraph breaks (doCheckAddedUnits), marker sequences, section changes, repeated words, speech marks after an m line')
BS = chr(92)
AZ = [(0x41, 0x5a), (0x61, 0x7a)]
FEW = [(0x41, 0x41), (0x61, 0x62)]
def setup():
    bookmaker.setup()
    from BibleOrgSys.Internals import InternalBible, InternalBibleBook

def note(kind, text, where):
    if kind == 'f': return BS + 'f + ' + BS + 'fr ' + where + ' ' + BS + 'ft ' + text + BS + 'f*'
    if kind == 'x': return BS + 'x - ' + BS + 'xo ' + where + ' ' + BS + 'xt ' + text + BS + 'x*'

class Q:
    """A book under construction and what it contains"""
    def __init__(self, sx, BBB='JNA', tag='', words='any'):
        self.sx = sx; self.BBB = BBB; self.tag = tag; self.words = words
        self.lines = [('id', BBB + ' test')]; self.n = 0
        self.c = self.v = 0; self.first = True
        self.markers = {'id': 1}
        self.chapters = self.verses = self.done = 0; self.empty = False; self.loose = False
        self.main = []; self.extra = []; self.printed = []          # words (lists of strings)
        self.titles = []; self.heads = []; self.refs = []; self.descr = []; self.headErrors = 0
        self.notes = {'f': [], 'x': []}; self.figs = 0
        self.paras = self.intro = self.introText = self.lists = self.tables = False
        self.open0 = False
    def word(self, lo=2, hi=2, dom=AZ):
        self.n += 1
        if self.words == 'fixed': return 'W' + self.tag + 'abcdefghijklmnop'[self.n - 1]
        if self.words == 'few': return self.sx.string('%sw%d' % (self.tag, self.n), 1, 1, FEW) + 'y'
        return self.sx.string('%sw%d' % (self.tag, self.n), lo, hi, dom)
    def add(self, marker, text):
        self.lines.append((marker, text))
        self.markers[marker] = self.markers.get(marker, 0) + 1
    def where(self): return '%d:%d' % (self.c, self.v)
    def chapter(self):
        self.c += 1; self.v = 0; self.chapters += 1; self.add('c', str(self.c))
    def step(self, k):
        if k == 'c': self.chapter(); return
        if k[0] == 'v':
            self.v += 1; self.verses += 1
            if k == 'v0':
                self.empty = True; self.open0 = True; self.add('v', str(self.v)); return
            self.open0 = False; self.done += 1
            w = self.word(); self.main.append(w); text = w
            if k in ('vf', 'vf.', 'vx', 'vx.'):
                x = self.word(); self.extra.append(x)
                nt = x + '.' if k[-1] == '.' else x
                self.notes[k[1]].append((self.where(), nt, k[-1] == '.'))
                text = text + note(k[1], nt, self.where())
            elif k == 'vfig':
                self.figs += 1
                text = text + BS + 'fig |a.jpg|col|||cap|1:1' + BS + 'fig*'
            elif k == 'v+':
                w = self.word(); self.main.append(w); text = text + ' ' + w
            self.add('v', '%d %s' % (self.v, '') + text); return
        if k in ('s1', 's2', 'qa', 's1.', 's10', 'd', 'd.', 'r', 'r(', 'mt1', 'mt2', 'mt1.', 'mt10'):
            mk = k.rstrip('.(') if k not in ('s10', 'mt10') else k[:-1]
            t = '' if k[-1] == '0' else self.word()
            if t and mk not in ('r', 'd'): self.main.append(t)
            if k[-1] == '.': t = t + '.'
            if k == 'r(': t = '(' + t + ')'
            self.add(mk, t)
            L = {'r': self.refs, 'd': self.descr, 'm': self.titles}.get(mk[0], self.heads)
            L.append((self.where(), t, mk))
            if mk == 'd': self.headErrors += k != 'd.'
            elif mk == 'r': self.headErrors += k != 'r('
            else: self.headErrors += k[-1] in '.0'
            return
        if k in ('is1', 'ip', 'iot', 'io1'):
            t = self.word(); self.main.append(t); self.add(k, t); self.intro = self.introText = True; return
        if k == 'h': self.add('h', 'Xx'); return
        if k == 'b': self.add('b', ''); return
        self.paras = True
        if k[:2] == 'li': self.lists = True
        if k[-1] == '+':
            if self.open0: self.loose = True
            w = self.word(); self.main.append(w); self.add(k[:-1], w)
        else: self.add(k, '')
    def book(self):
        self.sx.observe('lines', self.lines)
        return bookmaker.book(self.lines, self.BBB)

def fill(sx, q, kinds, n, intro=(), first=(), last=()):
    for i, K in enumerate(intro): q.step(K if isinstance(K, str) else sx.choice('%si%d' % (q.tag, i), K))
    q.chapter()
    for k in first: q.step(k)
    for i in range(n): q.step(sx.choice('%sk%d' % (q.tag, i), kinds))
    for k in last: q.step(k)

def counted(sx, got, words, label, lc=False):
    """got: {word: count} exactly of these words"""
    ws = [w.lower() for w in words] if lc else words
    for w in ws:
        sx.check(got.get(w) == sum([1 if sx.same(u, w) else 0 for u in ws]), label)
    t = 0
    for k, c in got.items():
        if k != '--Total--': t += c
    sx.check(t == len(ws), label + ': no others')

def ratio(L): return round(sum([1 for _, _, p in L if p]) / len(L), 2)
def disc(sx, kinds, n, intro=(), first=(), last=(), words='fixed', BBB='JNA'):
    q = Q(sx, BBB, words=words); fill(sx, q, kinds, n, intro, first, last)
    b = q.book()
    d = b._discover()
    if q.verses:
        sx.check(d['verseCount'] == q.verses and d['chapterCount'] == q.chapters, 'the numbers of chapters and verses')
        if not q.loose:
            sx.check(d['completedVerseCount'] == q.done, 'the verses with text')
            sx.check(d['percentageProgress'] == round(q.done * 100 / q.verses), 'the progress')
            sx.check(bool(d['seemsFinished']) == (not q.empty), 'a book is finished when every verse has text')
            sx.check(d['notStarted'] == (not q.done), 'a book is not started when no verse has text')
            sx.check(d['partlyDone'] == (q.done > 0 and q.empty), 'a book is partly done when some verses have text')
    else: sx.check('seemsFinished' not in d or not d['seemsFinished'], 'a book without verses is not finished')
    sx.check(d['mainHeadingsCount'] == len(q.titles) and d['haveMainHeadings'] == (len(q.titles) > 0), 'the title lines')
    sx.check(d['sectionHeadingsCount'] == len(q.heads) and d['haveSectionHeadings'] == (len(q.heads) > 0), 'the section headings')
    sx.check(d['sectionReferencesCount'] == len(q.refs) and d['haveSectionReferences'] == (len(q.refs) > 0), 'the section references')
    sx.check(d['footnotesCount'] == len(q.notes['f']) and d['haveFootnotes'] == d['haveFootnoteOrigins'] == (len(q.notes['f']) > 0), 'the footnotes')
    sx.check(d['crossReferencesCount'] == len(q.notes['x']) and d['haveCrossReferences'] == d['haveCrossReferenceOrigins'] == (len(q.notes['x']) > 0), 'the cross-references')
    sx.check(d['figuresCount'] == q.figs, 'the figures')
    sx.check(bool(d['haveParagraphMarkers']) == q.paras, 'paragraph markers are noticed')
    sx.check(bool(d['haveLists']) == q.lists, 'lists are noticed')
    sx.check(bool(d['haveIntroductoryMarkers']) == q.intro and bool(d['haveIntroductoryText']) == q.introText, 'introductions are noticed')
    for k, key in (('f', 'footnotesPeriod'), ('x', 'crossReferencesPeriod')):
        if q.notes[k]:
            r = ratio(q.notes[k])
            sx.check(d[key + 'Ratio'] == r and d[key + 'Flag'] == (r > 0.7), 'the share of notes that end with a period')
    if q.refs:
        r = round(sum([1 for _, t, _ in q.refs if t[0] == '(' and t[-1] == ')']) / len(q.refs), 2)
        sx.check(d['sectionReferencesParenthesisRatio'] == r and d['sectionReferencesParenthesisFlag'] == (r > 0.8), 'the share of section references in parentheses')
    alls = q.main + q.extra
    wc = q.main
    counted(sx, d['mainTextWordCounts'], wc, 'the words of the main text')
    counted(sx, d['allWordCounts'], alls, 'the words of the book')
    counted(sx, d['mainTextCaseInsensitiveWordCounts'], wc, 'the words of the main text whatever their case', lc=True)
    counted(sx, d['allCaseInsensitiveWordCounts'], alls, 'the words of the book whatever their case', lc=True)
    sx.check(d['wordCount'] == len(alls), 'the number of words')
    sx.check(d['uniqueWordCount'] == len(d['allWordCounts']), 'the number of different words')

def checkWords(sx, kinds, n, intro=(), first=(), last=()):
    q = Q(sx, words='few'); fill(sx, q, kinds, n, intro, first, last)
    b = q.book()
    b.doCheckWords()
    W = b.checkResultsDictionary.get('Words', {})
    alls = q.main + q.extra + ['Xx'] * q.markers.get('h', 0)
    for _, t, _ in q.refs + q.descr: alls.append(t.strip('(.)'))
    if not alls: sx.check(not W.get('All Word Counts'), 'no words'); return
    counted(sx, W['All Word Counts'], alls, 'the words of the book')
    counted(sx, W['Case Insensitive Word Counts'], alls, 'the words of the book whatever their case', lc=True)
    sx.check(W['All Word Counts']['--Total--'] == len(alls) and W['Case Insensitive Word Counts']['--Total--'] == len(alls), 'the totals')

WRAP = (('', ''), ('', ','), ('', '.'), ('\u201c', ''), ('(', ')'), ('\u2018', '.\u2019\u201d'), ('', '?\u201d'), ('[', ']'))
def wordForms(sx, seps, host, who, wraps=WRAP, num=('', ' 12', ' 3:16', ' 1,000.', ' 7-8')):
    """One line of two words with signs around them and a number: what is counted are the words."""
    q = Q(sx)
    q.chapter(); q.step('p')
    ws = []; text = ''
    for i in range(2):
        w = q.word(1, 1); a, z = sx.choice('wrap%d' % i, wraps)
        if i: text = text + sx.choice('sep', seps)
        text = text + a + w + z; ws.append(w)
    text = text + sx.choice('num', num)
    if host == 'v': q.lines.append(('v', '1 ' + text))
    elif host == 'f': q.lines.append(('v', '1 qqq' + note('f', text, '1:1'))); ws.append('qqq')
    else: q.lines.append((host, text))
    b = q.book()
    if who == 'discover': d = b._discover(); got = d['allWordCounts']; lc = d['allCaseInsensitiveWordCounts']
    else: b.doCheckWords(); W = b.checkResultsDictionary['Words']; got = W['All Word Counts']; lc = W['Case Insensitive Word Counts']
    counted(sx, got, ws, 'the words of the line')
    counted(sx, lc, ws, 'the words of the line whatever their case', lc=True)

CH = [(0x61, 0x61), (0x42, 0x42), (0xe9, 0xe9), (0x2c, 0x2c), (0x201c, 0x201c), (0x7e, 0x7e)]
def characters(sx, hosts, n=2):
    """The characters of all the printed lines are counted."""
    q = Q(sx)
    q.chapter(); q.step('p')
    host = sx.choice('host', hosts)
    t = sx.string('t', n, n, CH); u = sx.string('u', 1, 1, CH)
    if host == 'v': q.lines.append(('v', '1 ' + t))
    elif host == 'f': q.lines.append(('v', '1 q' + note('f', t, '1:1')))
    elif host == 'x': q.lines.append(('v', '1 q' + note('x', t, '1:1')))
    elif host == 'p+': q.lines += [('v', '1 q'), ('q1', t)]
    else: q.lines += [(host, t), ('v', '1 q')]
    q.lines.append(('v', '2 ' + u))
    b = q.book()
    b.doCheckCharacters()
    C = b.checkResultsDictionary['Characters']
    s = t + u + ('q' if host != 'v' else '')
    def of(c): return sum([1 if x == c else 0 for x in s])
    A = C['All Character Counts']; L = C.get('Letter Counts', {}); P = C.get('Punctuation Counts', {})
    for c in s:
        sx.check(A.get(c) == of(c), 'the characters of the book')
        if c in ',~\u201c': sx.check(P.get(c) == of(c), 'the punctuation of the book')
        else: sx.check(sum([L.get(x, 0) for x in ({c, c.lower(), c.upper()})]) == sum([of(x) for x in ({c, c.lower(), c.upper()})]), 'the letters of the book')
    for D in (A, L, P):
        if D: sx.check(D['Total'] == sum([v for k, v in D.items() if k != 'Total']), 'the totals')
    E = C.get('Possible Character Errors', [])
    sx.check(any([('~' in e and 'Invalid' in e) for e in E]) == ('~' in s), 'characters that belong to no word are reported')

def listed(sx, got, want, label):
    sx.check(len(got) == len(want), label)
    for g, (w, t, _) in zip(got, want):
        sx.check(w + ' ' in g and t in g, label)
def headings(sx, kinds, n, intro=(), first=(), last=(), paren=None):
    q = Q(sx); fill(sx, q, kinds, n, intro, first, last)
    b = q.book()
    b.doCheckHeadings(None if paren is None else {'sectionReferencesParenthesisFlag': paren})
    H = b.checkResultsDictionary.get('Headings', {})
    sx.check(len(H.get('Title Lines', ())) == len(q.titles) and all([t in g for g, (_, t, _) in zip(H.get('Title Lines', ()), q.titles)]), 'the title lines')
    listed(sx, H.get('Section Heading Lines', ()), q.heads, 'the section headings with their places')
    listed(sx, H.get('Descriptive Heading Lines', ()), q.descr, 'the descriptive titles with their places')
    listed(sx, H.get('Section Cross-reference Lines', ()), q.refs, 'the section references with their places')
    bad = q.headErrors
    if paren is False: bad = bad - sum([1 for _, t, _ in q.refs if t[0] != '(']) + sum([1 for _, t, _ in q.refs if t[0] == '('])
    sx.check(len(H.get('Possible Heading Errors', ())) == bad, 'as many heading errors as headings at fault')

def introduction(sx, n, ends=('', '.', ':', '.)', '.\u201d', ')', '0')):
    """The lines of an introduction and what is wrong with them"""
    q = Q(sx)
    want = {'imt': [], 'is': [], 'iot': [], 'io': []}; bad = 0
    for i in range(n):
        k = sx.choice('i%d' % i, ('imt1', 'imt2', 'is1', 'is2', 'iot', 'io1', 'io2', 'ip', 'im'))
        end = sx.choice('e%d' % i, ends)
        t = '' if end == '0' else q.word() + end
        q.lines.append((k, t))
        key = k.rstrip('12')
        if key in want: want[key].append(t); bad += end in ('.', '0')
        else: bad += end in ('', ')', '0')
    q.chapter(); q.step('p'); q.step('v')
    b = q.book()
    b.doCheckIntroduction()
    I = b.checkResultsDictionary.get('Introduction', {})
    for key, name in (('imt', 'Main Title Lines'), ('is', 'Section Heading Lines'), ('iot', 'Outline Title Lines'), ('io', 'Outline Entry Lines')):
        got = I.get(name, ())
        sx.check(len(got) == len(want[key]) and all([t in g for g, t in zip(got, want[key])]), 'the lines of the introduction')
    sx.check(len(I.get('Possible Introduction Errors', ())) == bad, 'as many introduction errors as lines at fault')

def notes(sx, n, flags=(None, True, False), ends=('', '.', '?', '.)')):
    """The notes and what is wrong with them"""
    q = Q(sx)
    q.chapter(); q.step('p')
    flag = sx.choice('flag', flags)
    leaders = {}; lines = {'f': [], 'x': []}; bad = {'f': 0, 'x': 0}
    for i in range(n):
        k = sx.choice('k%d' % i, ('f', 'x')); end = sx.choice('e%d' % i, ends)
        right = sx.bool('right%d' % i); lead = sx.choice('lead%d' % i, ('+', 'a'))
        q.v += 1
        w = q.word()
        place = q.where() if right else '9:9'
        a, c = ('fr', 'ft') if k == 'f' else ('xo', 'xt')
        nt = lead + ' ' + BS + a + ' ' + place + ' ' + BS + c + ' ' + w + end
        q.lines.append(('v', '%d qq' % q.v + BS + k + ' ' + nt + BS + k + '*'))
        lines[k].append((q.where(), w, None))
        leaders[k, lead] = leaders.get((k, lead), 0) + 1
        bad[k] += (not right) + (flag is True and end == '') + (flag is False and end != '')
    b = q.book()
    b.doCheckNotes({} if flag is None else {'footnotesPeriodFlag': flag, 'crossReferencesPeriodFlag': flag})
    N = b.checkResultsDictionary.get('Notes', {})
    for k, key, name in (('f', 'Footnote', 'Footnotes'), ('x', 'Cross-reference', 'Cross-References')):
        listed(sx, N.get(key + ' Lines', ()), lines[k], 'the notes with their places')
        sx.check(len(N.get(key + ' Errors', ())) == bad[k], 'as many errors of a kind of note as notes at fault')
        L = N.get('Leader Counts', {})
        sx.check(L.get(name, 0) == len(lines[k]), 'the number of notes')
        for l in ('+', 'a'): sx.check(L.get(key + ' leader ' + repr(l), 0) == leaders.get((k, l), 0), 'the leaders of the notes')

OPEN = '\u201c\u2018'; CLOSE = '\u201d\u2019'
MARKS = [(0x61, 0x61), (0x2018, 0x2019), (0x201c, 0x201d)]
def run(s, stack):
    """Follows the speech marks of s: the stack afterwards, or None where something is wrong."""
    for ch in s:
        if ch in OPEN:
            if stack and stack[-1] == ch: return None
            stack = stack + [ch]
            if len(stack) > 3: return None
        elif ch in CLOSE:
            if not stack or OPEN.index(stack[-1]) != CLOSE.index(ch): return None
            stack = stack[:-1]
    return stack
def speech(sx, n1, n2, between):
    q = Q(sx)
    q.chapter(); q.step('p')
    t = sx.string('t', n1, n1, MARKS); q.lines.append(('v', '1 ' + t))
    k = sx.choice('between', between)
    if k in ('s1', 'p'): q.lines.append((k, 'Head' if k == 's1' else ''))
    if k == 's1': q.lines.append(('p', ''))
    if k == 'c': q.chapter()
    u = sx.string('u', n2, n2, MARKS)
    if n2: q.lines.append(('v', ('1 ' if k == 'c' else '2 ') + u))
    b = q.book()
    st = run(t, [])
    if st and n2:
        if k == 's1': st = None
        elif k == 'p':
            sx.assume(len(st) == 1)
            if u[0] != st[0]:
                sx.assume(u[0] not in OPEN)
                st = None
            else:
                sx.assume(len(u) > 1 and u[1] not in OPEN)
                u = u[1:]
    if st is not None: st = run(u, st)
    b.doCheckSpeechMarks()
    E = b.checkResultsDictionary.get('Speech Marks', {}).get('Possible Matching Errors', [])
    sx.check((len(E) == 0) == (st == []), 'an error when and only when the speech marks do not match')
def speechNote(sx, n):
    q = Q(sx)
    q.chapter(); q.step('p')
    t = sx.string('t', n, n, MARKS)
    q.lines.append(('v', '1 aa' + note(sx.choice('kind', ('f', 'x')), t, '1:1')))
    b = q.book()
    st = run(t, [])
    sx.assume(st is None or len(st) < 3)
    b.doCheckSpeechMarks()
    E = b.checkResultsDictionary.get('Speech Marks', {}).get('Possible Matching Errors', [])
    sx.check((len(E) == 0) == (st == []), 'an error when and only when the speech marks of a note do not match')

INNER = (('w', lambda w: w, 0), ('add', lambda w: BS + 'add ' + w + BS + 'add*', 0), ('nd', lambda w: BS + 'nd ' + w + BS + 'nd*', 0),
         ('add, nd', lambda w: BS + 'add ' + w + BS + 'add* ' + BS + 'nd ' + w + BS + 'nd*', 0),
         ('open', lambda w: BS + 'add ' + w, 1), ('wrong', lambda w: BS + 'add ' + w + BS + 'nd*', 1), ('closed only', lambda w: w + BS + 'add*', 1))
def markers(sx, kinds, n, hosts, first=(), last=()):
    """The markers are counted and character markers that do not match are reported."""
    q = Q(sx); fill(sx, q, kinds, n, (), first, last)
    i = sx.choice('inner', list(range(len(INNER)))); name, f, bad = INNER[i]
    host = sx.choice('host', hosts)
    w = q.word(); t = f(w)
    if host == 'v': q.v += 1; q.verses += 1; q.add('v', '%d ' % q.v + t)
    else: q.add(host, t)
    b = q.book()
    b.doCheckSFMs(None)
    U = b.checkResultsDictionary['USFMs']
    got = {k: v for k, v in U['All Newline Marker Counts'].items() if k != 'Total'}
    for k in q.markers: sx.check(got.get(k) == q.markers[k], 'the lines with each marker')
    sx.check(U['All Newline Marker Counts']['Total'] == sum([v for v in got.values()]), 'the total of the markers')
    F = U['Functional Marker Counts']
    for k, x in (('Chapters', q.chapters), ('Verses', q.verses), ('Paragraphs', q.markers.get('p', 0)), ('Section Cross-References', len(q.refs)), ('Footnotes', len(q.notes['f'])), ('Cross-References', len(q.notes['x']))):
        sx.check(F.get(k, 0) == x, 'the counts of chapters, verses, paragraphs, references and notes')
    sx.check(('Internal Marker Errors' in U) == bool(bad), 'an error when and only when the character markers do not match')
    I = U.get('All Text Internal Marker Counts', {})
    sx.check({k: v for k, v in I.items() if k != 'Total'} == {'w': {}, 'add': {'add': 1, 'add*': 1}, 'nd': {'nd': 1, 'nd*': 1}, 'add, nd': {'add': 1, 'add*': 1, 'nd': 1, 'nd*': 1},
        'open': {'add': 1}, 'wrong': {'add': 1, 'nd*': 1}, 'closed only': {'add*': 1}}[name], 'the character markers')

SUMS = ('verseCount', 'chapterCount', 'completedVerseCount', 'sectionHeadingsCount', 'footnotesCount', 'crossReferencesCount', 'figuresCount', 'wordCount', 'mainHeadingsCount')
def bible(sx, codes, kinds, n, few=False, first=('p', 'v')):
    """The books of a Bible together"""
    qs = []
    for i, code in enumerate(codes):
        q = Q(sx, code, 'AB'[i % 2], words='few' if few else 'fixed'); fill(sx, q, kinds, n if i < 2 else 0, ('mt1',) if i else (), first if i < 2 else ('p', 'v'))
        qs.append(q)
    B = bookmaker.bible([q.book() for q in qs])
    B.discover()
    R = B.discoveryResults; A = R['ALL']
    for k in SUMS: sx.check(A[k] == sum([R[q.BBB].get(k, 0) for q in qs]), 'the totals of the books')
    sx.check(A['verseCount'] == sum([q.verses for q in qs]) and A['completedVerseCount'] == sum([q.done for q in qs]), 'the verses of all the books')
    words = []
    for q in qs: words += q.main + q.extra
    counted(sx, A['allWordCounts'], words, 'the words of all the books')
    sx.check(A.get('SeemsFinishedBookCodes', []) == [q.BBB for q in qs if not q.empty], 'the finished books')
    sx.check(A.get('PartlyDoneBookCodes', []) == [q.BBB for q in qs if q.empty and q.done], 'the books partly done')
    sx.check(A.get('NotStartedBookCodes', []) == [q.BBB for q in qs if not q.done], 'the books not started')
    for q in qs: counted(sx, R[q.BBB]['allWordCounts'], q.main + q.extra, 'the words of each book')
    OT = {'GEN', 'JNA', 'MAL'}; NT = {'MAT', 'REV', 'PHM'}; DC = {'TOB', 'WIS'}
    for p, S in (('OT', OT), ('NT', NT), ('DC', DC)):
        L = [q for q in qs if q.BBB in S]
        sx.check(A.get(p + 'BookCount', 0) == len(L) and A.get(p + 'BookCodes', []) == [q.BBB for q in L], 'the books of the testaments')
        sx.check(A.get(p + 'SeemsFinishedBookCodes', []) == [q.BBB for q in L if not q.empty] and A.get(p + 'PartlyDoneBookCodes', []) == [q.BBB for q in L if q.empty and q.done]
            and A.get(p + 'NotStartedBookCodes', []) == [q.BBB for q in L if not q.done], 'the finished books of the testaments')
        if L: sx.check(A[p + 'verseCount'] == sum([q.verses for q in L]) and A[p + 'wordCount'] == sum([R[q.BBB]['wordCount'] for q in L]), 'the totals of the testaments')
    sx.check(A['percentageProgressByVerse'] == str(round(sum([q.done for q in qs]) * 100 / sum([q.verses for q in qs]))) + '%', 'the progress of all the books')

def results(sx, codes, kinds, n, few=False):
    """The check results of all the books together are those of the books."""
    qs = []
    for i, code in enumerate(codes):
        q = Q(sx, code, 'AB'[i % 2], words='few' if few else 'fixed'); fill(sx, q, kinds, n, (), ('p', 'v'))
        qs.append(q)
    B = bookmaker.bible([q.book() for q in qs])
    B.check()
    E = B.getCheckResults()
    by = E['ByBook']; A = by['All Books']
    words = []
    for q in qs:
        words += q.main + q.extra
        for _, t, _ in q.refs + q.descr: words.append(t.strip('(.)'))
    W = A['Words']
    counted(sx, W['All Word Counts'], words, 'the words of all the books')
    sx.check(W['All Word Counts']['--Total--'] == len(words), 'the total of the words')
    mk = A['USFMs']['All Newline Marker Counts']
    for k in ('c', 'v', 'p', 's1'): sx.check(mk.get(k, 0) == sum([q.markers.get(k, 0) for q in qs]), 'the markers of all the books')
    heads = []
    for q in qs: heads += q.heads
    H = A.get('Headings', {}).get('Section Heading Lines', [])
    listed(sx, H, heads, 'the headings of all the books')
    C = E['ByCategory'].get('Headings', {}).get('Section Heading Lines', [])
    listed(sx, C, heads, 'the headings by category')
    fs = []
    for q in qs: fs += q.notes['f']
    listed(sx, A.get('Notes', {}).get('Footnote Lines', []), fs, 'the footnotes of all the books')
    sx.check(sx.same(by[codes[0]], B.books[codes[0]].checkResultsDictionary), 'the results of a book')
    for w in W.get('Uncommon Word Counts', {}):
        pass

BODY = ('c', 'v', 'v0', 'v+', 'vf', 'vf.', 'vx', 'vx.', 'vfig', 'p', 'p+', 'q1+', 's1', 's2', 'qa', 'r', 'r(', 'd', 'li1', 'b')
INTRO = ('h', 'mt1', 'mt2', 'is1', 'ip', 'iot', 'io1')
HEADS = ('s1', 's1.', 's10', 's2', 'qa', 'r', 'r(', 'd', 'd.', 'v', 'c')
def cases(tier):
    q = tier == 'quick'
    L = [('discovery', disc, dict(kinds=BODY, n=2, first=('p', 'v'))),
         ('discovery of words', disc, dict(kinds=('v+', 'vf', 'vx.', 's1', 'q1+'), n=1, first=('p', 'v', 'v'), words='few')),
         ('discovery, endings', disc, dict(kinds=('v', 'v0', 'c', 's1', 'p', 'q1+'), n=3, first=('p',), words='fixed')),
         ('discovery of notes', disc, dict(kinds=('vf', 'vf.', 'vx', 'vx.'), n=4, first=('p',), words='fixed')),
         ('discovery of references', disc, dict(kinds=('r', 'r(', 'v'), n=3, first=('p', 'v', 'r('), words='fixed')),
         ('discovery of introductions', disc, dict(kinds=('v', 'vf'), n=1, intro=(INTRO, INTRO), first=('p',))),
         ('words', checkWords, dict(kinds=('v+', 'vf', 'vx.', 'p+', 's1', 'r(', 'c'), n=1, intro=(INTRO,), first=('p', 'v'))),
         ('word forms, discovery', wordForms, dict(seps=(' ', '\u2014', '\u2013'), host='v', who='discover', num=('', ' 3:16'))),
         ('word forms', wordForms, dict(seps=(' ', '\u2014'), host='v', who='check', num=('', ' 12', ' 1,000.'))),
         ('word forms, notes', wordForms, dict(seps=(' ',), host='f', who='check', wraps=WRAP[:4])),
         ('characters', characters, dict(hosts=('v', 'f', 'x', 's1', 'p+', 'r'))),
         ('headings', headings, dict(kinds=HEADS, n=3, first=('p', 'v'))),
         ('headings, titles', headings, dict(kinds=('s1', 'd'), n=1, intro=(('mt1', 'mt2', 'mt1.', 'mt10'), ('mt1', 'mt1.')), first=('p', 'v'))),
         ('headings, without parentheses', headings, dict(kinds=('r', 'r(', 's1', 'v'), n=2, first=('p', 'v'), paren=False)),
         ('introduction', introduction, dict(n=2, ends=('', '.', '.)', '0'))),
         ('notes', notes, dict(n=1)), ('two notes', notes, dict(n=2, flags=(None, True), ends=('', '.'))),
         ('speech marks', speech, dict(n1=2, n2=2, between=('v',))),
         ('speech marks over breaks', speech, dict(n1=2, n2=2, between=('p', 's1', 'c'))),
         ('speech marks of notes', speechNote, dict(n=3)),
         ('markers', markers, dict(kinds=('v', 'vf', 'vx', 'p', 's1', 'r', 'c'), n=2, hosts=('v', 's1', 'p'), first=('p', 'v'))),
         ('Bibles', bible, dict(codes=('JNA', 'MAT', 'TOB'), kinds=('v', 'v0', 'vf', 's1', 'vfig'), n=1)),
         ('Bibles with empty books', bible, dict(codes=('MAL', 'MAT', 'TOB'), kinds=('v', 'v0'), n=2, first=('p',))),
         ('words of Bibles', bible, dict(codes=('JNA', 'MAT'), kinds=('v',), n=1, few=True)),
         ('results of Bibles', results, dict(codes=('JNA', 'MAT'), kinds=('v', 's1', 'vf', 'r'), n=1))]
    if not q:
        L += [('speech marks of notes 5', speechNote, dict(n=5)),
              ('results of Bibles 2', results, dict(codes=('GEN', 'WIS'), kinds=('v', 's1', 'r'), n=2)),
              ('Bibles 2', bible, dict(codes=('GEN', 'REV', 'FRT'), kinds=('v', 'v0', 'vx'), n=2)),
              ('word forms, more', wordForms, dict(seps=(' ', '\u2013'), host='s1', who='check')), ('word forms, notes, discovery', wordForms, dict(seps=(' ',), host='f', who='discover')),
              ('characters 3', characters, dict(hosts=('v', 'f', 'd'), n=3)),
              ('introduction 3', introduction, dict(n=3, ends=('', '.', '0'))),
              ('notes 3', notes, dict(n=3, flags=(None, True), ends=('', '.'))),
              ('speech marks 6', speech, dict(n1=4, n2=2, between=('v',))),
              ('speech marks over breaks 5', speech, dict(n1=3, n2=2, between=('p', 's1', 'c'))),
              ('discovery 3', disc, dict(kinds=BODY, n=3, first=('p', 'v'), words='fixed')),
              ('words 2', checkWords, dict(kinds=('v', 'vf', 'p+', 's1', 'c'), n=2, first=('p', 'v'))),
              ('headings 4', headings, dict(kinds=HEADS, n=4, first=('p', 'v'))),
              ('discovery of words 2', disc, dict(kinds=('v+', 'vf', 'vx.', 's1', 'q1+'), n=2, first=('p', 'v'), words='few'))]
    return L
