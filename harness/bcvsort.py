"""P02: references sort in Bible order."""
from harness import common
PROPERTY = 'P02'
ASSUMPTIONS = ['chapters 0..200 and verses 0..250 as decimal strings; suffix none or a..d; a verse may be a hyphenated span']
OUTSIDE = 'chapter and verse strings that are not plain numbers'
BOOKS = ['GEN', 'PSA', 'PRO']   # two neighbours and a distant one

def setup():
    global bbc
    bbc = common.bookCodes()

def ref(sx, k, four):
    b = sx.choice('b%s' % k, BOOKS)
    c = sx.int('c%s' % k, 0, 200); v = sx.int('v%s' % k, 0, 250)
    n = bbc.getReferenceNumber(b)
    if four:
        s = sx.oneof('s%s' % k, ['', 'a', 'c'])
        rank = 0
        for i, x in enumerate('ac'):
            if s == x: rank = i + 1
        return (b, str(c), str(v), s), (n, c, v, rank)
    span = sx.bool('span%s' % k)
    V = str(v)
    if span: V = V + '-' + str(v + 1)
    return (b, str(c), V), (n, c, v, 0)

def before(sx, x, y):
    """x sorts strictly before y (no forks)"""
    r = x[3] < y[3]
    for i in (2, 1, 0): r = sx.either(x[i] < y[i], sx.both(sx.same(x[i], y[i]), r))
    return r

def order(sx, four):
    r1, k1 = ref(sx, '1', four); r2, k2 = ref(sx, '2', four)
    i1 = bbc.BCVReferenceToInt(r1); i2 = bbc.BCVReferenceToInt(r2)
    sx.observe('i', (i1, i2))
    sx.check(sx.same(i1 < i2, before(sx, k1, k2)), 'the integers order like the references')
    sx.check(sx.same(i1 == i2, sx.both(*[sx.same(a, b) for a, b in zip(k1, k2)])), 'equal integers only for equal references')

def sort3(sx):
    refs = []; keys = []
    for k in '123':
        b = sx.choice('b' + k, ['PSA', 'PRO'])
        c = sx.int('c' + k, 1, 199); v = sx.int('v' + k, 1, 176)
        sx.assume(sx.either(c < 2, sx.both(c > 98, c < 102)))
        sx.assume(v > 8 if k == '1' else v > 99)
        refs.append((b, str(c), str(v))); keys.append((bbc.getReferenceNumber(b), c, v, 0))
    out = bbc.sortBCVReferences(refs)
    sx.check(len(out) == 3, 'nothing lost')
    pos = []
    for o in out: pos.append([i for i in range(3) if refs[i] is o])
    sx.check(sorted(p[0] for p in pos if p) == [0, 1, 2], 'the same references')
    for a, b in ((0, 1), (1, 2)):
        sx.check(sx.no(before(sx, keys[pos[b][0]], keys[pos[a][0]])), 'in Bible order')

def cases(tier):
    return [('two references', order, {'four': False}), ('two references with suffix', order, {'four': True}), ('sorting three', sort3, {})]
