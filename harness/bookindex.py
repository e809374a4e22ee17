"""P20: the chapter/verse index of a loaded book covers it exactly, and retrieval returns exactly the lines of a reference."""
from harness import common, bookmaker
PROPERTY = 'P20'
ASSUMPTIONS = ['lines as a USFM reader delivers them; every chapter and verse number once']
OUTSIDE = 'repeated references; verse numbers that are lists of spans; books that are not chapter/verse books'
def setup(): bookmaker.setup()

HEADINGS = ('s1', 's2', 's3', 'r', 'mr', 'sr', 'd', 'sp', 'sd', 'qa')

def expected(es):
    """Reference index: [(key, first, count, context)] from the processed lines."""
    out = []
    nests = bookmaker.nesting()
    C, n = '-1', 0
    starts = []
    text = True                          # a text (or c or v, or an ending) came after the last start: lines from here belong to the next verse
    pend = None
    for j, e in enumerate(es):
        m = e.getMarker()
        if m == 'c': C = e.getCleanText(); starts.append(((C, '0'), j)); pend = None
        elif m == 'v':
            starts.append(((C, e.getCleanText()), j if pend is None else pend)); pend = None
        elif C == '-1' and m not in ('c', 'v'): starts.append((('-1', str(n)), j)); n += 1
        elif m in ('v~', 'p~') or m[0] == '\u00ac': pend = None
        elif pend is None: pend = j
    opened = []
    for i, (k, a) in enumerate(starts):
        b = starts[i + 1][1] if i + 1 < len(starts) else len(es)
        out.append((k, a, b - a, list(opened)))
        for e in es[a:b]:
            m = e.getMarker()
            if m[0] == '\u00ac' and m != '\u00acv':
                if m[1:] in opened: opened.remove(m[1:])
            elif m in nests and m != 'v': opened.append(m)
    return out

def same(a, b): return len(a) == len(b) and all([x is y for x, y in zip([a[i] for i in range(len(a))], b)])

def verify(sx, b, es, want):
    X = b._CVIndex
    keys = [k for k in X]
    sx.check(len(keys) == len(want) == len(X), 'one index entry for each introduction line, chapter and verse')
    at = 0
    for k, (w, first, count, context) in zip(keys, want):
        sx.check(sx.same(k, w), 'the references in order')
        x = X[k]
        sx.check(x.getEntryIndex() == at, 'every line is in exactly one entry')
        sx.check(x.getNextEntryIndex() == x.getEntryIndex() + x.getEntryCount(), 'the next entry follows')
        at = x.getNextEntryIndex()
        sx.check(x.getEntryIndex() == first and x.getEntryCount() == count, 'the lines of the entry')
        sx.check(x.getContextList() == context, 'the context: what is open where the entry starts')
        sx.check(k in X, 'contains')
        sx.check(same(X.getVerseEntries(k), es[first:first + count]), 'the lines of a verse')
        r, c = X.getVerseEntriesWithContext(k)
        sx.check(same(r, es[first:first + count]) and c == context, 'the lines of a verse with context')
    sx.check(at == len(es), 'every line is indexed')

def structure(sx, **kw):
    m = bookmaker.make(sx, **kw)
    b = bookmaker.book(m.lines, kw.get('BBB', 'JNA')); es = bookmaker.entries(b)
    want = expected(es)
    sx.observe('want', [(k, a, n) for k, a, n, c in want])
    verify(sx, b, es, want)
    # what an entry must hold
    C = '-1'; V = None; n = 0; key = None; pending = []
    home = {}
    X = b._CVIndex
    for k in X:
        x = X[k]
        for j in range(x.getEntryIndex(), x.getNextEntryIndex()): home[j] = k
    for j, e in enumerate(es):
        mk = e.getMarker()
        if mk == 'c': key = (e.getCleanText(), '0'); C = key[0]; pending = []
        elif mk == 'v':
            key = (C, e.getCleanText())
            for h in pending: sx.check(home[h] == key, 'headings belong to the verse that follows')
            pending = []
        if C == '-1': continue
        if mk in ('c', 'v', 'v~', 'p~'): sx.check(home[j] == key, 'text belongs to its verse')
        if mk in ('v~', 'p~'): pending = []
        if mk in HEADINGS and not (pending == [] and es[j - 1].getMarker() == 'c'): pending.append(j)
        elif mk[0] == '\u00ac': pending = []
    # chapters
    chs = [(k, a) for k, a, nn, c in want if k[1] == '0' and k[0] != '-1']
    for i, (k, a) in enumerate(chs):
        e = chs[i + 1][1] if i + 1 < len(chs) else len(es)
        sx.check(same(X.getChapterEntries(k[0]), es[a:e]), 'the lines of a chapter')
        r, c = X.getChapterEntriesWithContext(k[0])
        sx.check(same(r, es[a:e]) and c == [x for x in want if x[0] == k][0][3], 'the lines of a chapter with context')
    r, c = X.getChapterEntriesWithContext('-1')
    sx.check(same(r, es[:chs[0][1]] if chs else es) and c == [], 'the lines of the introduction')
    last = int(chs[-1][0][0]) if chs else 0
    for k in ((str(last + 1), '0'), (str(last + 1), '1'), ('-1', str(len(es)))):
        sx.check(k not in X, 'contains nothing else')
        r = sx.attempt(X.getVerseEntriesWithContext, k); sx.check(not r.ok and r.kind == 'KeyError', 'no lines for a reference that is not there')
        r = sx.attempt(X.getVerseEntries, k); sx.check(not r.ok and r.kind == 'KeyError', 'no lines for a reference that is not there (2)')
    r = sx.attempt(X.getChapterEntries, str(last + 1)); sx.check(not r.ok and r.kind == 'KeyError', 'no lines for a chapter that is not there')

def numbers(sx, n, asked):
    """Verses of any number, single, spanned, listed or in parts: which lines a reference finds."""
    m = bookmaker.Maker(sx); m.head('id', 'JNA test'); c = sx.int('c', 1, 150); C = str(c)
    m.line('c', C, ('c', C)); m.para('p')
    at = 0; spans = []
    for i in range(n):
        a = sx.int('a%d' % i, 1, 150); sx.assume(a > at); at = a
        form = sx.choice('form%d' % i, ('plain', 'bridge', 'list', 'part'))
        num = str(a); s = [(a, a)]
        if form == 'bridge':
            at = sx.int('b%d' % i, 1, 151); sx.assume(at > a); num = num + '-' + str(at); s = [(a, at)]
        elif form == 'list':
            at = sx.int('b%d' % i, 1, 151); sx.assume(at > a); num = num + ',' + str(at); s = [(a, a), (at, at)]
        elif form == 'part': num = num + sx.choice('x%d' % i, ('a', 'b'))
        m.line('v', num + ' ' + 'text%d' % i); spans.append((num, s, form))
    b = bookmaker.book(m.lines); es = bookmaker.entries(b)
    want = expected(es); verify(sx, b, es, want)
    X = b._CVIndex
    q = sx.int('q', 1, 151)
    w = [x for x in want if x[0][0] != '-1' and x[0][1] != '0']
    sx.check(len(w) == n, 'an entry for each verse')
    inside = lambda s: sx.either(*[sx.both(lo <= q, q <= hi) for lo, hi in s])
    hit = None
    for (num, s, form), x in zip(spans, w):
        if inside(s): hit = (num, s, form, x); break
    ask = str(q)
    if asked == 'strict': r = sx.attempt(X.getVerseEntriesWithContext, (C, ask), strict=True)
    elif asked == 'suffix': r = sx.attempt(X.getVerseEntriesWithContext, (C, ask + 'a'))
    elif asked == 'complete': r = sx.attempt(X.getVerseEntriesWithContext, (C, ask), complete=True)
    elif asked == 'entries': r = sx.attempt(X.getVerseEntries, (C, ask), strict=False)
    else: r = sx.attempt(X.getVerseEntriesWithContext, (C, ask))
    if hit is not None and asked == 'strict' and hit[2] != 'plain': hit = None
    if hit is not None and asked == 'entries' and hit[2] != 'plain':
        if hit[2] != 'bridge' or q != hit[1][0][0]: hit = None
    if hit is None: sx.check(not r.ok and r.kind == 'KeyError', 'a verse that is not there is not found')
    else:
        sx.check(r.ok, 'a verse that is there is found')
        lines = r.value if asked == 'entries' else r.value[0]
        k, a, cnt, ctx = hit[3]
        sx.check(same(lines, es[a:a + cnt]), 'exactly the lines of the verse')
        if asked != 'entries': sx.check(r.value[1] == ctx, 'the context of the verse')

def cases(tier):
    q = tier == 'quick'
    L = [(n, structure, p) for n, p in bookmaker.structures(tier)]
    L += [('find ' + a, numbers, dict(n=n, asked=a)) for a, n in (('loose', 2), ('strict', 1), ('suffix', 1 if q else 2), ('complete', 1 if q else 2), ('entries', 1 if q else 2))]
    if not q: L += [('find loose 3', numbers, dict(n=3, asked='loose'))]
    return L
