"""P07: keys for single verses, verse lists and verse ranges."""
from harness import common
PROPERTY = 'P07'
ASSUMPTIONS = ['chapter and verse numbers 1..199, suffix a..d, verse index 0..999 (the documented key format)']
OUTSIDE = 'OSIS key strings, chapter keys (GEN_18), strings ending with a bare "!" or a newline; the last verse number a range across chapters assumes for a chapter'
DIG = '0123456789'

def setup():
    global VR, K1, KN, KR, Codes
    G = common.globalsModule()
    Codes = common.bookCodes()
    from BibleOrgSys.Reference import VerseReferences as VR_
    VR = VR_
    K1, KN, KR = VR.SimpleVerseKey, VR.SimpleVersesKey, VR.VerseRangeKey

def number(sx, name, digits=None, big=False):
    """A decimal string 1..199."""
    s = sx.string(name, 1, 3, DIG) if digits is None else sx.string(name, digits, digits, DIG)
    sx.assume(sx.no(sx.same(s[0], '0')))
    if big: sx.assume(sx.no(sx.same(s[0], '1')))
    if len(s) == 3: sx.assume(sx.same(s[0], '1'))
    return s

def suffix(sx, name): return sx.oneof(name, ['', 'a', 'b', 'c', 'd'])
def bang(S): return '!' + S if len(S) else ''

def checkKey(sx, k, B, C, V, S, I, text):
    sx.check(sx.same(k.getBCV(), (B, C, V)), 'book, chapter and verse')
    sx.check(sx.same([k.getBBB(), k.getChapterNumber(), k.getChapterNumStr(), k.getVerseNumber(), k.getVerseNumStr(), k.getCV()], [B, C, C, V, V, (C, V)]), 'accessors')
    sx.check(sx.both(sx.same(k.getVerseSuffix() or '', S), sx.same(k.getVerseIndex() or '', I)), 'suffix and index')
    sx.check(sx.both(k.getChapterNumberInt() == int(C), k.getVerseNumberInt() == int(V)), 'numbers')
    sx.check(sx.same([k[0], k[1], k[2], k[3]], [B, C, V, I or S]), 'as a sequence')
    sx.check(sx.same(k.getVerseKeyText(), text), 'key text round trip')
    sx.check(sx.same(k.getShortText(), B + ' ' + C + ':' + V + (S if not I else '!' + I)), 'short text')

def single(sx, books):
    B = sx.oneof('B', books); C = number(sx, 'C'); V = number(sx, 'V'); S = suffix(sx, 'S')
    text = B + '_' + C + ':' + V + bang(S)
    k = K1(text)
    checkKey(sx, k, B, C, V, S, '', text)
    k2 = K1(B, C, V, S)
    checkKey(sx, k2, B, C, V, S, '', text)
    sx.check(k == k2, 'the same key')
    sx.check(sx.same(k.makeHash(), k2.makeHash()), 'the same hash')
    sx.check([x is k for x in k] == [True], 'iterates over itself')
    sx.check([x is k for x in k.getIncludedVerses()] == [True], 'includes itself')

def indexed(sx):
    B = sx.oneof('B', ['GEN', 'SA2']); C = number(sx, 'C', 1); V = number(sx, 'V', 2); I = sx.string('I', 1, 3, DIG)
    text = B + '_' + C + ':' + V + '!' + I
    k = K1(text)
    checkKey(sx, k, B, C, V, '', I, text)
    k2 = K1(B, C, V, I)
    checkKey(sx, k2, B, C, V, '', I, text)
    sx.check(k == k2, 'the same key')

def numbers(sx):
    """Numbers may be given as integers."""
    B = sx.choice('B', ['GEN', 'JN3']); c = sx.int('c', 1, 199); v = sx.int('v', 0, 199); S = suffix(sx, 'S')
    k = K1(B, c, v, S)
    checkKey(sx, k, B, str(c), str(v), S, '', B + '_' + str(c) + ':' + str(v) + bang(S))

def equality(sx):
    """Keys are equal exactly when all parts are; the hash agrees."""
    P = []
    for n in '12':
        P.append((sx.oneof('B' + n, ['GEN', 'SA2', 'SA1']), number(sx, 'C' + n, 1), number(sx, 'V' + n, 1), sx.oneof('S' + n, ['', 'a', 'b', '1', '2'])))
    a = K1(*P[0]); b = K1(*P[1])
    same = sx.same(P[0], P[1])
    sx.check(sx.same(a == b, same), 'equal exactly when all parts are')
    sx.check(sx.same(a != b, sx.no(same)), 'different otherwise')
    sx.check(sx.same(sx.same(a.makeHash(), b.makeHash()), same), 'hash keys')

def refused(sx, head, lo, hi, alpha):
    """A string is accepted exactly when it is a well-formed verse key."""
    s = sx.string('s', lo, hi, alpha)
    r = sx.attempt(K1, head + s, ignoreParseErrors=True)
    sx.assume(sx.no(sx.same(s[-1], '!')))
    sx.check(r.ok or r.kind == 'TypeError', 'refused with TypeError only')
    sx.check(r.ok == well(sx, s), 'accepted exactly when well-formed')
    if r.ok: sx.check(sx.same(r.value.getVerseKeyText(), head + s), 'keeps its text')

def num(sx, s):
    n = len(s)
    if n == 0 or n > 3: return False
    for c in s:
        if not ('0' <= c <= '9'): return False
    if s[0] == '0': return False
    return n < 3 or s[0] == '1'

def well(sx, s):
    if len(s) == 0 or s[0] != '_': return False
    s = s[1:]
    i = s.find(':')
    if i < 0 or not num(sx, s[:i]): return False
    s = s[i+1:]
    i = s.find('!')
    if i < 0: return num(sx, s)
    if not num(sx, s[:i]): return False
    s = s[i+1:]
    if len(s) == 1 and 'a' <= s <= 'd': return True
    if not 1 <= len(s) <= 3: return False
    for c in s:
        if not ('0' <= c <= '9'): return False
    return True

def badBook(sx):
    B = sx.string('B', 3, 3, 'GENX1')
    sx.assume(sx.no(B in Codes))
    r = sx.attempt(K1, B, '1', '2')
    sx.check(not r.ok and r.kind == 'TypeError', 'an unknown book is refused')
    r = sx.attempt(KN, B + '_1:2,4', ignoreParseErrors=True)
    sx.check(not r.ok and r.kind == 'TypeError', 'an unknown book is refused in a list')
    r = sx.attempt(KR, B + '_1:2-4', ignoreParseErrors=True)
    sx.check(not r.ok and r.kind == 'TypeError', 'an unknown book is refused in a range')

def verseList(sx, n, digits, withSuffix, big=False):
    B = sx.oneof('B', ['GEN', 'SA2']); C = number(sx, 'C', 1 if n > 3 else None)
    L = [(number(sx, 'V%d' % i, digits, big), suffix(sx, 'S%d' % i) if i in withSuffix else '') for i in range(n)]
    text = B + '_' + C + ':' + ','.join([V + bang(S) for V, S in L])
    k = KN(text)
    sx.check(sx.same(k.getVerseKeyText(), text), 'list round trip')
    got = [x.getBCVS() for x in k.getIncludedVerses()]
    sx.check(sx.same(got, [(B, C, V, S) for V, S in L]), 'the verses of the list in order')
    sx.check(sx.same([x.getBCVS() for x in k], got), 'iterating gives the same')
    sx.check(sx.same(k.getShortText(), ', '.join([B + ' ' + C + ':' + V + S for V, S in L])), 'short text of the list')

def chapterList(sx, n):
    B = sx.oneof('B', ['GEN', 'SA2'])
    L = [(number(sx, 'C%d' % i, 1 if i else 2), number(sx, 'V%d' % i, 2), suffix(sx, 'S%d' % i)) for i in range(n)]
    for i in range(1, n): sx.assume(sx.no(sx.same(L[i][0], L[i-1][0])))
    text = B + '_' + ';'.join([C + ':' + V + bang(S) for C, V, S in L])
    k = KN(text)
    sx.check(sx.same(k.getVerseKeyText(), text), 'list round trip')
    sx.check(sx.same([x.getBCVS() for x in k.getIncludedVerses()], [(B, C, V, S) for C, V, S in L]), 'the verses of the list in order')

def verseRange(sx, width, top):
    B = sx.oneof('B', ['GEN', 'SA2']); C = number(sx, 'C')
    v1 = sx.int('v1', 1, top); w = sx.int('w', 1, width)
    S1 = suffix(sx, 'S1'); S2 = suffix(sx, 'S2')
    v2 = v1 + w
    sx.assume(v2 <= 199)
    V1 = str(v1); V2 = str(v2)
    text = B + '_' + C + ':' + V1 + bang(S1) + '-' + V2 + bang(S2)
    k = KR(text)
    sx.check(sx.same(k.getVerseKeyText(), text), 'range round trip')
    exp = [(B, C, str(v1 + i), '') for i in range(1, sx.concrete(w))]
    exp = [(B, C, V1, S1)] + exp + [(B, C, V2, S2)]
    sx.check(sx.same([x.getBCVS() for x in k.getIncludedVerses()], exp), 'exactly the verses of the range in order')
    sx.check(sx.same([x.getBCVS() for x in k], exp), 'iterating gives the same')

def backwards(sx):
    B = 'GEN'; C = number(sx, 'C', 1)
    v1 = sx.int('v1', 1, 199); v2 = sx.int('v2', 1, 199); S1 = suffix(sx, 'S1'); S2 = suffix(sx, 'S2')
    sx.assume(v2 < v1)
    r = sx.attempt(KR, B + '_' + C + ':' + str(v1) + bang(S1) + '-' + str(v2) + bang(S2), ignoreParseErrors=True)
    sx.check(not r.ok, 'a range going backwards is refused')

def partVerse(sx):
    """4a-4c: ends with the suffixes given."""
    V = number(sx, 'V'); S1 = sx.oneof('S1', ['a', 'b', 'c', 'd']); S2 = sx.oneof('S2', ['a', 'b', 'c', 'd'])
    C2 = sx.choice('form', ['-', '–6:'])
    sx.assume(S1 < S2)
    k = KR('GEN_6:' + V + bang(S1) + C2 + V + bang(S2))
    L = [x.getBCVS() for x in k.getIncludedVerses()]
    sx.check(len(L) >= 2, 'both ends')
    sx.check(sx.same([L[0], L[-1]], [('GEN', '6', V, S1), ('GEN', '6', V, S2)]), 'the ends with their suffixes')

def overChapters(sx, lo, hi, more, top2):
    c1 = sx.int('c1', 1, 9); v1 = sx.int('v1', lo, hi); v2 = sx.int('v2', 1, top2); S1 = suffix(sx, 'S1'); S2 = suffix(sx, 'S2')
    C1 = sx.concrete(c1); C2 = C1 + more
    A = sx.concrete(v1); Z = sx.concrete(v2)
    text = 'GEN_%d:%d%s–%d:%d%s' % (C1, A, bang(S1), C2, Z, bang(S2)) if not sx.symbolic else 'GEN_' + str(C1) + ':' + str(A) + bang(S1) + '–' + str(C2) + ':' + str(Z) + bang(S2)
    k = KR(text)
    sx.check(sx.same(k.getVerseKeyText(), text), 'range round trip')
    L = [x.getBCVS() for x in k.getIncludedVerses()]
    sx.check(sx.same([L[0], L[-1]], [('GEN', str(C1), str(A), S1), ('GEN', str(C2), str(Z), S2)]), 'the ends with their suffixes')
    T = [(int(x[1]), int(x[2])) for x in L]
    sx.check(all([x < y for x, y in zip(T, T[1:])]), 'in order, each once')
    sx.check(all([y == (x[0], x[1] + 1) or (y[0] == x[0] + 1 and y[1] == 1 and x[1] >= 176) for x, y in zip(T, T[1:])]), 'no verse is left out')
    sx.check(sx.both(*[sx.same(x[3], '') for x in L[1:-1]]), 'no suffix inside')

def backwardsChapters(sx):
    c1 = sx.int('c1', 2, 9); c2 = sx.int('c2', 1, 9); v1 = number(sx, 'v1', 1); v2 = number(sx, 'v2', 2)
    sx.assume(c2 < c1)
    r = sx.attempt(KR, 'GEN_' + str(c1) + ':' + v1 + '–' + str(c2) + ':' + v2, ignoreParseErrors=True)
    sx.check(not r.ok, 'a range going backwards is refused')

def cases(tier):
    q = tier == 'quick'
    allBooks = list(Codes)
    L = [('single verse', single, {'books': ['GEN', 'SA2', 'JN3']}),
         ('single verse with index', indexed, {}),
         ('given as numbers', numbers, {}),
         ('equality', equality, {}),
         ('any string', refused, {'head': 'GEN', 'lo': 4, 'hi': 7 if q else 8, 'alpha': '_:!-0129ae'}),
         ('unknown book', badBook, {}),
         ('range', verseRange, {'width': 3 if q else 9, 'top': 199}),
         ('backwards range', backwards, {}),
         ('part of a verse', partVerse, {}),
         ('range over chapters', overChapters, {'lo': 173 if q else 160, 'hi': 176, 'more': 1, 'top2': 2 if q else 12}),
         ('backwards range over chapters', backwardsChapters, {}),
         ('list of 2', verseList, {'n': 2, 'digits': None, 'withSuffix': (0, 1)}),
         ('list of 3', verseList, {'n': 3, 'digits': None, 'withSuffix': (1,) if q else (0, 1, 2)})]
    for n in range(4, 10): L.append(('list of %d' % n, verseList, {'n': n, 'digits': 2, 'withSuffix': (0, n//2, n-1), 'big': q and n > 5}))
    L += [('list of 2 over chapters', chapterList, {'n': 2}), ('list of 3 over chapters', chapterList, {'n': 3})]
    return L
