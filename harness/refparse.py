"""P09: parsing Bible references."""
from harness import common
PROPERTY = 'P09'
ASSUMPTIONS = ['the RSV organisational system (book names, punctuation, book order, versification)']
OUTSIDE = 'whole chapters followed by more references, ranges ending in a single-chapter book, OSIS input, other punctuation systems'

def setup():
    global bbc, bos, BR
    common.globalsModule()
    bbc = common.bookCodes()
    from BibleOrgSys.Reference.BibleOrganisationalSystems import BibleOrganisationalSystem
    from BibleOrgSys.Reference import BibleReferences as BR
    bos = BibleOrganisationalSystem('RSV')

def valid(sx, ref):
    B, c, v, s = ref
    if c is None or not bos.isValidBCVRef((B, '1', '', ''), ''): return False
    n = bos.getNumChapters(B)
    out = []
    for k in range(1, n + 1):
        if v is None: out.append(sx.same(c, k))
        else:
            om = [int(y) for x, y in (bos.getOmittedVerseList(B) or []) if int(x) == k]
            out.append(sx.both(sx.same(c, k), v >= 1, v <= bos.getNumVerses(B, str(k)), *[sx.no(sx.same(v, y)) for y in om]))
    return sx.either(*out) if out else False

def tup(ref):
    B, c, v, s = ref
    return (B, str(c), '' if v is None else str(v), s)

def build(sx, template, books, cmax, vmax, vmin=0, cmin=0):
    """The text of the template, and the references that it means.
       B the next book, c chapter, v verse, s suffix"""
    text = ''; refs = []; B = c = v = None; s = ''; start = None; n = 0; ib = 0; one = False
    def emit():
        nonlocal start, s
        r = (B, c, v, s)
        if start is not None: refs.append((start, r))
        else: refs.append(r)
        start = None; s = ''
    for ch in template:
        n += 1
        if ch == 'B':
            name, B = books[ib]; ib += 1
            text += name; one = B in ('JDE', 'OBA', 'PHM', 'JN2', 'JN3'); c = 1 if one else None; v = None
        elif ch == 'c': c = sx.int('c%d' % n, cmin, cmax); v = None; text += str(c)
        elif ch == 'v': v = sx.int('v%d' % n, vmin, vmax); text += str(v)
        elif ch == 's': s = sx.oneof('s%d' % n, ['', 'a', 'f']); text += s
        elif ch == '(': text += ' (LXX)'
        else:
            text += ch
            if ch == '-': start = (B, c, v, s); s = ''
            elif ch in ',;': emit()
    emit()
    return text, refs

def allValid(sx, refs):
    return sx.both(*[valid(sx, x) for r in refs for x in (r if len(r) == 2 else (r,))])

def before(sx, a, b):
    """a range that runs forward"""
    ia = bos.getBookOrderNumber(a[0]) if hasattr(bos, 'getBookOrderNumber') else bbc.getReferenceNumber(a[0])
    ib = bos.getBookOrderNumber(b[0]) if hasattr(bos, 'getBookOrderNumber') else bbc.getReferenceNumber(b[0])
    if ia != ib: return ia < ib
    if a[2] is None and b[2] is None: return a[1] < b[1]
    if a[2] is None or b[2] is None: return False
    return sx.either(a[1] < b[1], sx.both(sx.same(a[1], b[1]), a[2] < b[2]))

def same(sx, got, refs):
    if len(got) != len(refs): return False
    return sx.both(*[sx.same(g, tup(r) if len(r) == 4 else (tup(r[0]), tup(r[1]))) for g, r in zip(got, refs)])

def listRefs(sx, template, books, cmax, vmax, extra=True, vmin=0, cmin=0):
    text, refs = build(sx, template, books, cmax, vmax, vmin, cmin)
    L = BR.BibleReferenceList(bos)
    ok, warn, got = L.parseReferenceString(text)
    av = allValid(sx, refs)
    sx.check(sx.either(sx.no(ok), av), 'success only if every reference exists')
    fwd = sx.both(av, *[before(sx, *r) for r in refs if len(r) == 2])
    sx.check(sx.either(ok, sx.no(fwd)), 'existing references are accepted')
    if not ok: return
    sx.check(same(sx, got, refs), 'exactly the references that were written')
    if not extra or not fwd: return
    sx.check(sx.same(L.getReferenceList(), got), 'getReferenceList')
    exp = L.getReferenceList(True); k = 0
    for r in refs:
        if len(r) == 4: e = [tup(r)]
        else: e = bos.expandCVRange(tup(r[0]), tup(r[1]), bookOrderSystem=bos)
        sx.check(sx.same(exp[k:k+len(e)], e), 'the expanded list has every verse of every reference')
        k += len(e)
    sx.check(k == len(exp), 'the expanded list has nothing more')
    first = refs[0] if len(refs[0]) == 4 else refs[0][0]
    sx.check(sx.same(L.getFirstReference(text), tup(first)), 'the first reference')
    o = ''
    for r in refs:
        if o: o += '; '
        o += '-'.join(bbc.getOSISAbbreviation(x[0]) + '.' + str(x[1]) + ('' if x[2] is None else '.' + str(x[2])) for x in (r if len(r) == 2 else (r,)))
    sx.check(sx.same(L.getOSISRefList(), o), 'the OSIS list'); sx.check(sx.same(L.parseToOSIS(text), o), 'parsing to OSIS')

def singles(sx, template, books, cmax, vmax):
    text, refs = build(sx, template, books, cmax, vmax)
    ok, warn, got = BR.BibleSingleReferences(bos).parseReferenceString(text)
    av = sx.both(allValid(sx, refs), *[r[2] is not None for r in refs])
    sx.check(sx.same(bool(ok), av) if isinstance(av, bool) else sx.either(sx.both(ok, av), sx.no(sx.either(ok, av))), 'success exactly if every verse exists')
    if ok: sx.check(same(sx, got, refs), 'exactly the verses that were written')
    if len(refs) == 1:
        r = BR.BibleSingleReference(bos).parseReferenceString(text)
        sx.check(sx.either(sx.both(r[0], av), sx.no(sx.either(r[0], av))), 'one verse: success exactly if it exists')
        if r[0]: sx.check(sx.same(tuple(r[2:]), tup(refs[0])), 'one verse')

def anyText(sx, before, lo, hi, dom, which):
    """Whatever the text, a successful answer names only verses that exist."""
    text = before + sx.string('t', lo, hi, dom)
    sx.assume(len(text) > 0)
    P = {'list': BR.BibleReferenceList, 'singles': BR.BibleSingleReferences, 'single': BR.BibleSingleReference}[which](bos)
    r = P.parseReferenceString(text)
    if not r[0]: return
    got = [tuple(r[2:])] if which == 'single' else r[2]
    sx.check(len(got) > 0, 'success with at least one reference')
    for g in got:
        for x in (g if len(g) == 2 else (g,)): sx.check(existing(sx, x), 'success only with verses that exist')
    if which == 'list': sx.check(sx.same(P.getReferenceList(), got), 'getReferenceList')
    if which != 'list':
        L = BR.BibleReferenceList(bos).parseReferenceString(text)
        if L[0]: sx.check(sx.same([x[:3] for x in L[2]], [x[:3] for x in got]), 'the list parser agrees')

def existing(sx, x):
    B, C, V, S = x
    if not bos.isValidBCVRef((B, '1', '', ''), ''): return False
    out = []
    for k in range(1, bos.getNumChapters(B) + 1):
        if len(V): v = int(V); out.append(sx.both(sx.same(C, str(k)), v >= 1, v <= bos.getNumVerses(B, str(k))))
        else: out.append(sx.same(C, str(k)))
    return sx.either(*out)

def contains(sx, template, books, cmax, vmax, vmin=0, cmin=0):
    """containsReference finds exactly the verses that the references cover."""
    text, refs = build(sx, template, books, cmax, vmax, vmin, cmin)
    sx.assume(sx.both(allValid(sx, refs), *[before(sx, *r) for r in refs if len(r) == 2]))
    L = BR.BibleReferenceList(bos)
    ok, warn, got = L.parseReferenceString(text)
    sx.check(ok, 'accepted')
    B = books[0][1]; c = sx.int('c', 1, bos.getNumChapters(B)); v = sx.int('v', max(1, vmin - 2), vmax)
    sx.assume(valid(sx, (B, c, v, '')))
    inside = []
    for r in refs:
        a, b = (r, r) if len(r) == 4 else r
        lo = sx.either(c > a[1], sx.both(sx.same(c, a[1]), v >= (1 if a[2] is None else a[2])))
        hi = sx.either(c < b[1], sx.both(sx.same(c, b[1]), True if b[2] is None else v <= b[2]))
        if len(r) == 4 and r[2] is None: inside.append(False)
        else: inside.append(sx.both(lo, hi))
    inside = sx.either(*inside)
    r = L.containsReference(B, str(c), str(v))
    sx.check(sx.either(sx.both(r, inside), sx.no(sx.either(r, inside))), 'contained exactly if it is one of the verses')

def roundTrip(sx, B):
    c = sx.int('c', 1, 150); v = sx.int('v', 1, 200)
    sx.assume(valid(sx, (B, c, v, '')))
    L = BR.BibleReferenceList(bos)
    t = (B, str(c), str(v), '')
    s = L.makeReferenceString(t)
    ok, warn, got = L.parseReferenceString(s)
    sx.check(ok and sx.same(got, [t]), 'a reference made into text is read back the same')

def everyBook(sx, books, second):
    """Every book by its name and its abbreviation."""
    B = sx.choice('book', books); abbrev = sx.bool('abbrev')
    name = bos.getBookAbbreviation(B) + '.' if abbrev else bos.getBookName(B)
    v = sx.int('v', 1, 3)
    sx.assume(valid(sx, (B, 1, v, '')))
    text = name + (' ' if bos.isSingleChapterBook(B) else ' 1:') + str(v)
    e = (B, '1', str(v), '')
    if second:
        ok, warn, got = BR.BibleReferenceList(bos).parseReferenceString('Ruth 2:3b; ' + text + '; Jude 4')
        sx.check(ok and sx.same(got, [('RUT', '2', '3', 'b'), e, ('JDE', '1', '4', '')]), 'the book is recognised later on')
    else:
        ok, warn, got = BR.BibleReferenceList(bos).parseReferenceString(text)
        sx.check(ok and sx.same(got, [e]), 'the book is recognised')
        r = BR.BibleSingleReference(bos).parseReferenceString(text)
        sx.check(r[0] and sx.same(tuple(r[2:]), e), 'the book is recognised in a single reference')

def cases(tier):
    q = tier == 'quick'
    R = ('Ruth', 'RUT'); J = ('Jude', 'JDE'); N = ('Jonah', 'JNA'); O = ('Obad.', 'OBA'); K = ('1 Cor.', 'CO1'); K2 = ('2 Cor.', 'CO2'); M = ('Mic.', 'MIC')
    L = []
    def l(t, *b, c=5, v=30, x=True, vmin=0, cmin=0): L.append((' '.join([t] + [y[0] for y in b]), listRefs, {'template': t, 'books': list(b), 'cmax': c, 'vmax': v, 'extra': x, 'vmin': vmin, 'cmin': cmin}))
    l('B c:vs', ('Gen.', 'GEN'), c=51, v=70)
    l('B c:vs,vs', R); l('B c:vs; c:vs', R); l('B c:vs-vs', R, c=4, v=24, vmin=19); l('B c:vs-c:v', R, c=4, v=22, vmin=20, cmin=2); l('B c', R, c=12); l('B c-c', N, c=12)
    l('B vs', J); l('B c:v', J, c=2); l('B v,v', J); l('B v-v', J, vmin=19, v=26); l('B c:v(', R)
    l('B c:vs; B c:v', R, N); l('B c:v; B v', R, O); l('B v; B c:v', J, R); l('B c:v-B c:v', N, M, c=4, v=12, vmin=9, cmin=3)
    l('B c-c; c:v', N, c=4, v=12, vmin=9, cmin=2); l('B c-c; B c:v', N, M, c=4, v=12, vmin=9, cmin=3); l('B c:v-B c:v,v', N, M, c=4, v=11, vmin=10, cmin=4)
    l('B c:vs-vs,vs', R, c=2, v=23, vmin=21, cmin=2); l('B c:vs-c:vs,vs', N, c=4, v=11, vmin=10, cmin=3); l('B c:vs-vs; c:vs', N, c=4, v=11, vmin=9, cmin=3)
    l('B v-vs,vs', J, v=26, vmin=24); l('B c:vs-c:vs; c:v', N, c=4, v=11, vmin=10, cmin=3)
    l('B c:v; c:v-v', R, c=2, v=5, vmin=3, cmin=1); l('B c:v-v,v-v', R, c=1, v=5, vmin=3, cmin=1)
    l('B c:v; c', R); l('B c:v', K, c=18, v=41)
    if not q:
        l('B c:vs', ('Psalms', 'PSA'), c=151, v=177, x=False); l('B c:vs; c:vs,vs', R); l('B c:v; B c:v; B c:v', R, N, M, c=4, v=20)
        l('B c:vs,vs-vs; c:v', R, c=4, v=24, vmin=20, cmin=1); l('B c:v-c:v; B v', R, J, c=3, v=23, vmin=20, cmin=2); l('B c-c', ('Amos', 'AMO'), c=12)
        l('B c:v-B c:v; c:v', N, M, c=4, v=12, vmin=9, cmin=3); l('B c:vs-vs', ('1 Sam.', 'SA1'), c=3, v=38, vmin=18)
        l('B c:v; B v-v', R, J, c=3, v=26, vmin=20); l('B v-v; B c:v', J, R, c=3, v=26, vmin=20); l('B c:v-c:v', R, c=5, v=24, vmin=15)
    for t, b in (('B c:vs', (K,)), ('B c:vs,vs', (N,)), ('B c:v; c:v', (N,)), ('B c:v; B c:v', (R, N)), ('B c:v; c', (N,)), ('B v', (O,))):
        L.append(('single verses ' + t, singles, {'template': t, 'books': list(b), 'cmax': 5, 'vmax': 30}))
    L.append(('contained', contains, {'template': 'B c:vs', 'books': [R], 'cmax': 5, 'vmax': 23}))
    L.append(('contained in a range', contains, {'template': 'B c:v-c:v', 'books': [R], 'cmax': 3, 'vmax': 19, 'vmin': 17}))
    L.append(('read back', roundTrip, {'B': 'GEN'})); L.append(('read back Jude', roundTrip, {'B': 'JDE'}))
    bks = [b for b in bos.getBookList()]
    L.append(('every book', everyBook, {'books': bks, 'second': False})); L.append(('every book later', everyBook, {'books': bks if not q else bks[::3] + ['SNG'], 'second': True}))
    D = '0129:;,-. aGJ_'
    for w in ('list', 'singles', 'single'):
        for b in ['Ruth ', 'Jude 1', 'Ruth 1:2'] + ([] if q else ['Ruth 1:2-', 'Jude 3; ', 'Ruth 1:2,', 'Ruth 1:2; 3', 'Ruth 1-2', 'Jonah 1:2a; Ruth ']):
            L.append(('any text %s after %s' % (w, b), anyText, {'before': b, 'lo': 0, 'hi': 3 if q or w == 'single' else 4, 'dom': D, 'which': w}))
    return L
