"""P06: absolute verse numbers."""
from harness import common
PROPERTY = 'P06'
ASSUMPTIONS = ['organisational systems whose books all have chapter information']
OUTSIDE = 'systems not named in the cases'
SYSTEMS = ['NKJV-NT', 'RSV71', 'GENERIC-KJV-66', 'RSV52', 'YLT', 'MBT']
TAILS = ['GENERIC-KJV-66', 'RSV52', 'YLT', 'MBT', 'KJV-1769_edition', 'GENERIC-RSV-80']

def setup():
    global S
    common.globalsModule(); common.bookCodes()
    from BibleOrgSys.Reference.BibleOrganisationalSystems import BibleOrganisationalSystem
    S = {n: BibleOrganisationalSystem(n) for n in dict.fromkeys(SYSTEMS + TAILS)}

def table(o):
    """[(BBB, C, count)] in the order of the system's books"""
    return [(b, i + 1, n) for b in o.getBookList() for i, n in enumerate(o.getNumVersesList(b))]

def fromNumber(sx, n, earlier, tail=None):
    o = S[n]
    if earlier: S[earlier].getAbsoluteVerseNumber('MAT', '1', '1')     # another system was used before
    t = table(o); total = sum(x[2] for x in t)
    a = sx.int('a', 1 if tail is None else total - tail, total + 20)
    r = o.convertAbsoluteVerseNumber(a)
    if r is None:
        sx.check(a > total, 'every number up to the total is a verse')
        return
    sx.check(a <= total, 'nothing beyond the last verse')
    BBB, C, V = r
    sx.observe('r', r)
    sx.check(o.getAbsoluteVerseNumber(BBB, C, V) == a, 'and back')
    before = 0
    for b, c, k in t:
        if b == BBB and str(c) == C: break
        before += k
    sx.check(sx.same(int(V) + before, a), 'the number is the count of verses up to this one')
    sx.check(sx.both(int(V) >= 1, int(V) <= o.getNumVerses(BBB, C)), 'a verse of that chapter')

def toNumber(sx, n, earlier, tail=None):
    o = S[n]
    if earlier: S[earlier].convertAbsoluteVerseNumber(1)
    t = table(o)
    i = sx.int('i', 0 if tail is None else len(t) - tail, len(t) - 1)
    BBB, c, k = t[sx.concrete(i)]
    v = sx.int('v', -2, 200)
    r = o.getAbsoluteVerseNumber(BBB, str(c), str(v) if v >= 0 else v)
    if r is None: sx.check(sx.either(v < 1, v > k), 'every verse has a number')
    else:
        sx.check(sx.both(v >= 1, v <= k), 'only verses have a number')
        sx.check(sx.same(r, v + sum(x[2] for x in t[:t.index((BBB, c, k))])), 'the count of verses up to this one')

def cases(tier):
    L = []
    for n in SYSTEMS[:2] if tier == 'quick' else SYSTEMS:
        other = 'NKJV-NT' if n == 'RSV71' else 'RSV71' if n == 'NKJV-NT' else 'GENERIC-KJV-66' if n != 'GENERIC-KJV-66' else 'RSV52'
        L.append(('number to verse in ' + n, fromNumber, {'n': n, 'earlier': other}, {'max_decisions': 20000}))
        L.append(('verse to number in ' + n, toNumber, {'n': n, 'earlier': other}, {'max_decisions': 20000}))
    for n in TAILS if tier == 'quick' else TAILS[4:]:
        L.append(('last verses in ' + n, fromNumber, {'n': n, 'earlier': None, 'tail': 80}, {'max_decisions': 20000}))
        L.append(('last chapters in ' + n, toNumber, {'n': n, 'earlier': None, 'tail': 3}, {'max_decisions': 20000}))
    return L
