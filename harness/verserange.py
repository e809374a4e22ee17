"""P05: expanding a verse range."""
from harness import common
PROPERTY = 'P05'
ASSUMPTIONS = ['both ends are valid references']
OUTSIDE = 'ranges over books without chapter information; suffixes on both ends of the same verse'

def setup():
    global V, O, bbc
    common.globalsModule()
    bbc = common.bookCodes()
    from BibleOrgSys.Reference.BibleVersificationSystems import BibleVersificationSystem
    from BibleOrgSys.Reference.BibleBookOrders import BibleBookOrderSystem
    V = {n: BibleVersificationSystem(n) for n in ('KJV', 'NIV84')}
    O = {n: BibleBookOrderSystem(n) for n in ('EuropeanBible', 'ModernJewish')}

def oneBook(sx, n, BBB, lo, hi, vmax, vmin=1):
    """Range inside one book."""
    o = V[n]
    c1 = sx.int('c1', lo, hi); c2 = sx.int('c2', lo, hi)
    whole1 = sx.bool('whole1'); whole2 = sx.bool('whole2')
    v1 = sx.int('v1', vmin, vmax); v2 = sx.int('v2', vmin, vmax)
    s1 = sx.oneof('s1', ['', 'b']); s2 = sx.oneof('s2', ['', 'a'])
    sx.assume(sx.both(c1 <= c2))
    C1 = sx.concrete(c1); C2 = sx.concrete(c2)
    e1 = 1; e2 = o.getNumVerses(BBB, str(C2))
    if not whole1: sx.assume(v1 <= o.getNumVerses(BBB, str(C1))); e1 = v1
    else: sx.assume(s1 == '')
    if not whole2: sx.assume(v2 <= e2); e2 = v2
    else: sx.assume(s2 == '')
    if C1 == C2: sx.assume(e1 < e2)
    a = (BBB, str(C1), '' if whole1 else str(v1), s1); b = (BBB, str(C2), '' if whole2 else str(v2), s2)
    om = [(int(x), int(y)) for x, y in (o.getOmittedVerseList(BBB) or [])]
    for x, y in om: sx.assume(sx.no(sx.either(sx.both(C1 == x, sx.same(e1, y)), sx.both(C2 == x, sx.same(e2, y)))))
    r = o.expandCVRange(a, b)
    sx.check(r is not None, 'a proper range is expanded')
    verify(sx, o, r, [(BBB, c, (e1 if c == C1 else 1), (e2 if c == C2 else o.getNumVerses(BBB, str(c)))) for c in range(C1, C2+1)], s1, s2)

def verify(sx, o, r, chapters, s1, s2):
    """r lists exactly the verses of the chapters [(BBB,C,first,last)] in order."""
    k = 0
    n = len(chapters)
    for i, (B, c, f, l) in enumerate(chapters):
        om = [int(y) for x, y in (o.getOmittedVerseList(B) or []) if int(x) == c]
        v = f
        while v <= l:
            if not (sx.either(*[sx.same(v, y) for y in om]) if om else False):
                if not k < len(r):
                    sx.fail('a verse is missing')
                s = ''
                if i == 0 and sx.same(v, f): s = s1
                elif i == n - 1 and sx.same(v, l): s = s2
                sx.check(sx.same(r[k], (B, str(c), str(v), s)), 'the verses in order, with the suffixes of the two ends')
                k += 1
            v = v + 1
    sx.check(k == len(r), 'nothing beyond the end')

def moreBooks(sx, order, BBB1, BBB2):
    o = V['KJV']; bos = O[order]
    c1 = sx.int('c1', 1, o.getNumChapters(BBB1)); v1 = sx.int('v1', 1, 25)
    v2 = sx.int('v2', 1, 14); s1 = sx.oneof('s1', ['', 'b']); s2 = sx.oneof('s2', ['', 'a'])
    C1 = sx.concrete(c1)
    sx.assume(v1 <= o.getNumVerses(BBB1, str(C1)))
    r = o.expandCVRange((BBB1, str(C1), str(v1), s1), (BBB2, '1', str(v2), s2), bookOrderSystem=bos)
    sx.check(r is not None, 'expanded')
    ch = [(BBB1, c, v1 if c == C1 else 1, o.getNumVerses(BBB1, str(c))) for c in range(C1, o.getNumChapters(BBB1) + 1)]
    B = bos.getNextBookCode(BBB1)
    while B != BBB2:
        ch += [(B, c, 1, o.getNumVerses(B, str(c))) for c in range(1, o.getNumChapters(B) + 1)]
        B = bos.getNextBookCode(B)
    ch.append((BBB2, 1, 1, v2))
    verify(sx, o, r, ch, s1, s2)

def refused(sx):
    """Ranges that run backwards or name verses that are not there are refused."""
    o = V['KJV']; bos = O['EuropeanBible']
    b1 = sx.choice('b1', ['OBA', 'JNA', 'MIC']); b2 = sx.choice('b2', ['OBA', 'JNA', 'MIC'])
    c1 = sx.int('c1', 0, 5); c2 = sx.int('c2', 0, 5); v1 = sx.int('v1', 0, 22); v2 = sx.int('v2', 0, 22)
    haveOrder = sx.bool('order')
    i1 = bbc.getReferenceNumber(b1); i2 = bbc.getReferenceNumber(b2)
    valid = sx.both(*[sx.both(c >= 1, c <= o.getNumChapters(b), v >= 1, v <= o.getNumVerses(b, str(c))) for b, c, v in ((b1, c1, v1), (b2, c2, v2))])
    if i1 == i2: fwd = sx.either(c1 < c2, sx.both(sx.same(c1, c2), v1 < v2)); 
    else: fwd = i1 < i2 and haveOrder
    sx.assume(sx.no(sx.both(valid, fwd)))
    same = sx.both(i1 == i2, sx.same(c1, c2), sx.same(v1, v2))
    sx.assume(sx.no(same))
    r = o.expandCVRange((b1, str(c1), str(v1), ''), (b2, str(c2), str(v2), ''), bookOrderSystem=bos if haveOrder else None)
    sx.check(r is None, 'refused')

def cases(tier):
    q = tier == 'quick'
    L = [('inside Jonah', oneBook, {'n': 'KJV', 'BBB': 'JNA', 'lo': 1 if not q else 2, 'hi': 4, 'vmax': 17}),
         ('inside Jude', oneBook, {'n': 'KJV', 'BBB': 'JDE', 'lo': 1, 'hi': 1, 'vmax': 25}),
         ('around an omitted verse', oneBook, {'n': 'NIV84', 'BBB': 'MRK', 'lo': 15, 'hi': 15 if q else 16, 'vmax': 47, 'vmin': 22 if q else 1}),
         ('over several books', moreBooks, {'order': 'EuropeanBible', 'BBB1': 'OBA', 'BBB2': 'MIC'}),
         ('over two books', moreBooks, {'order': 'EuropeanBible', 'BBB1': 'JN3', 'BBB2': 'JDE'}),
         ('refused ranges', refused, {})]
    if not q: L += [('in another book order', moreBooks, {'order': 'ModernJewish', 'BBB1': 'LAM', 'BBB2': 'EST'}),
         ('inside Haggai', oneBook, {'n': 'KJV', 'BBB': 'HAG', 'lo': 1, 'hi': 2, 'vmax': 23})]
    return L
