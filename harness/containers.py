"""P16: entries, extras and their lists."""
from harness import common
PROPERTY = 'P16'
ASSUMPTIONS = ['entries and extras as the loader creates them (strings; markers without blanks)']
OUTSIDE = 'the debugging texts (__str__, __repr__, summary)'

def setup():
    global II
    common.preload()
    from BibleOrgSys.Internals import InternalBibleInternals as II_
    II = II_

def entry(marker, text='t', extras=None): return II.InternalBibleEntry(marker, marker, text, text, extras, text)

def extra(i, ix=0): return II.InternalBibleExtra('fn', ix, 'note%d' % i, 'clean%d' % i, 'GEN 1:1')

def same(L, model):
    return len(L) == len(model) and all([x is y for x, y in zip([L[i] for i in range(len(L))], model)])

def history(sx, kind, steps, lo, hi, sts):
    """Any history of operations leaves the list as a plain list would be; other lists are not changed."""
    if kind == 'entries': mk = lambda i: entry('p%d' % i); LT = II.InternalBibleEntryList
    else: mk = extra; LT = II.InternalBibleExtraList
    pool = [mk(i) for i in range(steps + 2)]
    n0 = sx.int('n0', 0, 2)
    model = list(pool[:sx.concrete(n0)])
    L = LT(list(model)); other = LT(pool[-1:]); nxt = 2
    ops = ['append', 'pop', 'extend', 'slice', 'copy'] + (['add'] if kind == 'entries' else [])
    for k in range(steps):
        op = sx.choice('op%d' % k, ops)
        if op == 'append': L.append(pool[nxt]); model = model + [pool[nxt]]; nxt += 1
        elif op == 'pop':
            r = L.pop()
            sx.check(r is (model[-1] if model else None), 'pop returns the last one')
            model = model[:-1]
        elif op == 'extend': L.extend(other); model = model + [pool[-1]]
        elif op == 'add':
            old = L
            L = L + other
            sx.check(same(old, model), 'adding does not change the left list'); model = model + [pool[-1]]
        elif op == 'copy':
            old = L; L = LT(old); sx.check(same(old, model), 'copying does not change the original')
            sx.check(L is not old, 'a copy is a new list')
            old.append(pool[-1])
        elif op == 'slice':
            a = sx.concrete(sx.int('a%d' % k, lo, hi)); b = sx.concrete(sx.int('b%d' % k, lo, hi))
            r = L[a:b]
            sx.check(isinstance(r, LT) and same(r, model[a:b]), 'slices as a list does')
            sx.check(same(L, model), 'slicing does not change the list')
            st = sx.choice('st%d' % k, sts)
            r = L[::st]
            sx.check(same(r, model[::st]), 'slices with a step')
            for r in (L[a:b], L[:], L[0:], L[:len(model)]): r.append(pool[-1]); r.pop(); r.extend(other)
            sx.check(same(L, model), 'changing a slice does not change the list')
        sx.check(same(L, model), ('after', op))
        sx.check([x for x in L] == model if model else len(L) == 0, 'iterates in order') if kind == 'entries' else None
        sx.check(len(other) == 1 and other[0] is pool[-1], 'the other list is unchanged')
    for i in range(-3, 4):
        r = sx.attempt(lambda: L[i])
        m = sx.attempt(lambda: model[i])
        sx.check(r.ok == m.ok and (not r.ok or r.value is m.value), 'indexing as a list does')

def contains(sx, n):
    """contains() gives the index of the first entry with the marker within the searched lines."""
    ms = [sx.oneof('m%d' % i, ['p', 'q', 'v', 'q1', 'c']) for i in range(n)]
    L = II.InternalBibleEntryList([entry(m) for m in ms])
    s = sx.oneof('s', ['p', 'q', 'v', 'q1', 'c'])
    lim = sx.int('lim', 0, n + 1); has = sx.bool('has')
    r = L.contains(s, lim) if has else L.contains(s)
    top = n
    if has: top = min(n, sx.concrete(lim))
    want = None
    for i in range(top):
        if ms[i] == s: want = i; break
    sx.check(r is None if want is None else r == want, 'first line with the marker, or None')

def forIndex(sx, n):
    """checkForIndex() finds exactly the extras at that place."""
    ix = [sx.int('ix%d' % i, 0, 3) for i in range(n)]
    es = [extra(i, ix[i]) for i in range(n)]
    L = II.InternalBibleExtraList(es)
    s = sx.int('s', 0, 4)
    r = L.checkForIndex(s)
    want = [e for e, i in zip(es, ix) if i == s]
    if not want: sx.check(r is None, 'none there')
    elif len(want) == 1: sx.check(r is want[0], 'the one there')
    else: sx.check(isinstance(r, list) and len(r) == len(want) and all([x is y for x, y in zip(r, want)]), 'all there, in order')

def fields(sx):
    """Entries and extras keep what they are given; equality is equality of all parts."""
    alpha = 'ab \\'
    vals = [[sx.string('%s%d' % (f, k), 1, 1, 'ab') for f in ('m', 'o', 'a', 'c', 't')] for k in (1, 2)]
    X = [II.InternalBibleExtra('fn', sx.int('x%d' % k, 0, 1), sx.string('n%d' % k, 1, 1, 'ab'), sx.string('cn%d' % k, 1, 1, 'ab'), 'loc') for k in (1, 2)]
    sx.check(sx.same([X[0].getType(), X[0].getIndex(), X[0].getText(), X[0].getCleanText()], [X[0][0], X[0][1], X[0][2], X[0][3]]), 'extra fields')
    xl = [II.InternalBibleExtraList([x]) for x in X]
    E = [II.InternalBibleEntry(v[0], v[1], v[2], v[3], xl[k], v[4]) for k, v in enumerate(vals)]
    e, v = E[0], vals[0]
    sx.check(sx.same([e.getMarker(), e.getOriginalMarker(), e.getAdjustedText(), e.getText(), e.getCleanText(), e.getOriginalText(), e.getFullText()], [v[0], v[1], v[2], v[2], v[3], v[4], v[4]]), 'entry fields')
    sx.check(e.getExtras() is xl[0], 'its extras')
    sx.check(sx.same([e[0], e[1], e[2], e[3], e[5]], [v[0], v[1], v[2], v[3], v[4]]), 'as a sequence')
    sx.check(len(e) == 6 and e[4] is xl[0] and len(X[0]) == 4, 'as a sequence with extras')
    xsame = sx.both(X[0].index == X[1].index, sx.same(X[0].noteText, X[1].noteText), sx.same(X[0].cleanNoteText, X[1].cleanNoteText))
    sx.check(sx.same(X[0] == X[1], xsame), 'extras are equal exactly when all parts are')
    sx.check(sx.same(xl[0] != xl[1], sx.no(xsame)), 'lists of extras')
    esame = sx.both(xsame, sx.same(vals[0], vals[1]))
    sx.check(sx.same(E[0] == E[1], esame), 'entries are equal exactly when all parts are')
    sx.check(sx.same(E[0] != E[1], sx.no(esame)), 'or different')

def cleanText(sx, n):
    """Removing ESFM underlines leaves the words, separated."""
    s = sx.string('s', 0, n, 'ab_ ')
    e = entry('v~', s)
    r = e.getCleanText(removeESFMUnderlines=True)
    sx.check(not '_' in r, 'no underline left')
    sx.check(sx.same(r.replace(' ', ''), s.replace('_', '').replace(' ', '')), 'the letters are kept')
    sx.check(sx.same(r.split(), s.replace('_', ' ').split()), 'the words are kept')
    sx.check(sx.same(e.getCleanText(), s), 'the entry is not changed')

def setClean(sx):
    s = sx.string('s', 0, 2, 'ab_ ')
    e = entry('v~', 'old')
    e.setCleanText(s)
    sx.check(sx.same([e.getCleanText(), e.getAdjustedText(), e.getFullText(), e.getMarker()], [s, s, s, 'v~']), 'replaced everywhere')

def leading(sx, n):
    """getLeadingInt: the number at the start, or ValueError."""
    s = sx.string('s', 0, n, '-0129ab ,')
    r = sx.attempt(II.getLeadingInt, s)
    i = 1 if len(s) and s[0] == '-' else 0
    v = None
    while i < len(s) and '0' <= s[i] <= '9':
        v = (v or 0) * 10 + int(s[i]); i += 1
    if v is None: sx.check(not r.ok and r.kind == 'ValueError', 'no number there')
    else:
        if s[0] == '-': v = -v
        sx.check(r.ok and r.value == v, 'the leading number')

def cases(tier):
    q = tier == 'quick'
    return [('history of entry lists', history, {'kind': 'entries', 'steps': 2, 'lo': -1 if q else -2, 'hi': 2 if q else 3, 'sts': [2, -1] if q else [1, 2, -1]}),
            ('history of extra lists', history, {'kind': 'extras', 'steps': 2, 'lo': -1 if q else -2, 'hi': 2 if q else 3, 'sts': [2, -1] if q else [1, 2, -1]}),
            ('longer history of entry lists', history, {'kind': 'entries', 'steps': 3 if q else 4, 'lo': 1, 'hi': 1 if q else 2, 'sts': [-1]}),
            ('longer history of extra lists', history, {'kind': 'extras', 'steps': 3 if q else 4, 'lo': 1, 'hi': 1 if q else 2, 'sts': [-1]}),
            ('contains', contains, {'n': 3 if q else 4}),
            ('extras at an index', forIndex, {'n': 3 if q else 5}),
            ('fields and equality', fields, {}),
            ('clean text', cleanText, {'n': 5 if q else 7}),
            ('set clean text', setClean, {}),
            ('leading number', leading, {'n': 5 if q else 7})]
