"""P21: asking a loaded Bible for a verse, chapter, book or range gives exactly its lines."""
from harness import common, bookmaker
from harness.bookindex import expected, same
PROPERTY = 'P21'
ASSUMPTIONS = ['chapters from one, verses from one without gaps in ranges; every reference once']
OUTSIDE = 'ranges over spanned verses or from the introduction; the symbols getVerseText adds for headings and paragraphs'
def setup():
    bookmaker.setup()
    global SVK
    from BibleOrgSys.Reference.VerseReferences import SimpleVerseKey as SVK

SYMBOLS = '\u00b6\u2081\u2082\u2083\u2084\u00a7\u25ca\u2022\u25e6'

def make(sx, BBB, counts, kinds, tag=''):
    """A book with the given numbers of verses; in front of some verses a line of any kind; -> book, entries, texts by reference"""
    m = bookmaker.Maker(sx); m.head('id', BBB + ' test'); m.head('mt1', 'Title')
    T = {}
    for c, n in enumerate(counts, 1):
        m.chapter()
        for v in range(1, n + 1):
            k = sx.choice('%sk%d.%d' % (tag, c, v), kinds) if kinds else 'p'
            if k in ('p', 'q1', 'm'): m.para(k)
            elif k == 'p+': m.para('p', 'before'); m.para('p')
            elif k: m.head(k, 'Heading'); m.para('p')
            t = m.text() if not tag else tag + str(c) + 'x' + str(v)
            m.verse(t); T[(c, v)] = t
    b = bookmaker.book(m.lines, BBB)
    return b, bookmaker.entries(b), T

def ranges(sx, counts, kinds, form):
    """Any range in a book"""
    b, es, T = make(sx, 'JNA', counts, kinds)
    B = bookmaker.bible([b])
    want = {k: (a, n, ctx) for k, a, n, ctx in expected(es)}
    c1 = sx.int('c1', 1, len(counts)); v1 = sx.int('v1', 1, max(counts)); c2 = sx.int('c2', 1, len(counts) + 1); v2 = sx.int('v2', 1, max(counts) + 1)
    sx.assume(sx.either(c1 < c2, sx.both(c1 == c2, v1 <= v2)))
    C1, V1, C2, V2 = [sx.concrete(x) for x in (c1, v1, c2, v2)]
    sx.assume(V1 <= counts[C1 - 1])
    there = C2 <= len(counts) and V2 <= counts[C2 - 1]
    if form == 'key': A, Z = SVK('JNA', str(C1), str(V1)), SVK('JNA', str(C2), str(V2))
    else: A, Z = ('JNA', str(C1), str(V1)), ('JNA', str(C2), str(V2), '')
    r = sx.attempt(B.getContextVerseDataRange, A, Z)
    if not there:
        sx.check(not r.ok and r.kind == 'KeyError', 'a range that is not all there is refused'); return
    sx.check(r.ok, 'a range that is there is found')
    lines, ctx = r.value
    a = want[(str(C1), str(V1))]; z = want[(str(C2), str(V2))]
    sx.check(same(lines, es[a[0]:z[0] + z[1]]), 'all lines from the first verse to the last, once, in order')
    sx.check(ctx == a[2], 'the context of the first verse')
    sx.check(same(bookmaker.entries(b), es), 'the book itself is unchanged')
    texts = [T[k] for k in T if (C1, V1) <= k <= (C2, V2)]
    got = [e.getCleanText() for e in lines if e.getMarker() == 'v~']
    sx.check(len(got) == len(texts) and all([sx.same(x, y) for x, y in zip(got, texts)]), 'the texts of the verses')
    r2 = sx.attempt(B.getContextVerseDataRange, A, Z)
    sx.check(r2.ok and same(r2.value[0], es[a[0]:z[0] + z[1]]), 'asking again gives the same')

def overBooks(sx, kinds, names):
    """Any range over several books"""
    L = [make(sx, B, n, [], B) for B, n in names]
    B = bookmaker.bible([b for b, _, _ in L])
    i = sx.choice('first', range(len(L) - 1)); j = sx.choice('last', range(1, len(L)))
    sx.assume(i < j)
    n1 = names[i][1]; n2 = names[j][1]
    C1 = sx.concrete(sx.int('c1', 1, len(n1))); V1 = sx.concrete(sx.int('v1', 1, max(n1))); C2 = sx.concrete(sx.int('c2', 1, len(n2))); V2 = sx.concrete(sx.int('v2', 1, max(n2)))
    sx.assume(V1 <= n1[C1 - 1]); sx.assume(V2 <= n2[C2 - 1])
    r = sx.attempt(B.getContextVerseDataRange, (names[i][0], str(C1), str(V1)), (names[j][0], str(C2), str(V2)))
    sx.check(r.ok, 'a range that is there is found')
    texts = []
    for x in range(i, j + 1):
        for k, t in L[x][2].items():
            if (x > i or k >= (C1, V1)) and (x < j or k <= (C2, V2)): texts.append(t)
    got = [e.getCleanText() for e in r.value[0] if e.getMarker() == 'v~']
    sx.check(got == texts, 'the texts of the verses of all the books in order')
    for b, es, T in L: sx.check(same(bookmaker.entries(b), es), 'the books themselves are unchanged')

def single(sx, **kw):
    """Any verse, chapter and the book of any structure; the text of a verse"""
    m = bookmaker.make(sx, **kw)
    b = bookmaker.book(m.lines, 'JNA'); es = bookmaker.entries(b); B = bookmaker.bible([b])
    want = expected(es)
    chs = [(k[0], a) for k, a, n, ctx in want if k[1] == '0' and k[0] != '-1']
    r = B.getContextVerseData(('JNA',)); sx.check(same(r[0], es) and r[1] == [], 'the lines of the book')
    sx.check(B.getContextVerseData(('GEN', '1', '1')) is None, 'a book that is not there gives nothing')
    for k, a, n, ctx in want:
        r = B.getContextVerseData(('JNA', k[0], k[1])); sx.check(same(r[0], es[a:a + n]) and r[1] == ctx, 'the lines of a verse')
        r = B.getContextVerseData(('JNA', k[0], k[1], '')); sx.check(same(r[0], es[a:a + n]), 'the lines of a verse given with its suffix')
        r = B.getVerseDataList(('JNA', k[0], k[1])); sx.check(same(r, es[a:a + n]), 'the line list of a verse')
        if k[0] != '-1' and '-' not in k[1]:
            r = B.getContextVerseData(SVK('JNA', k[0], k[1])); sx.check(same(r[0], es[a:a + n]) and r[1] == ctx, 'the lines of a verse key')
            for canon in (True, False):
                t = B.getVerseText(('JNA', k[0], k[1]), includeNonCanonical=canon)
                for s in SYMBOLS: t = t.replace(s, '')
                w = ''
                for e in es[a:a + n]:
                    x = e.getMarker()
                    if x in ('v~', 'p~'): w = w + e.getCleanText()
                    elif x == 'd': w = w + '\u2302' + e.getCleanText() + '\u2302'
                    elif canon and x in ('s1', 's2', 's3'): q = {'s1': '\u00b9', 's2': '\u00b2', 's3': '\u00b3'}[x]; w = w + q + e.getCleanText() + q
                sx.check(sx.same(t, w), 'the text of a verse')
    for i, (C, a) in enumerate(chs):
        z = chs[i + 1][1] if i + 1 < len(chs) else len(es)
        r = B.getContextVerseData(('JNA', C)); sx.check(same(r[0], es[a:z]), 'the lines of a chapter')
    r = sx.attempt(B.getContextVerseData, ('JNA', str(len(chs) + 1), '1')); sx.check(not r.ok and r.kind == 'KeyError', 'a verse that is not there is refused')
    r = sx.attempt(B.getContextVerseData, ('JNA', str(len(chs) + 1))); sx.check(not r.ok and r.kind == 'KeyError', 'a chapter that is not there is refused')
    sx.check(len(B) == 1 and 'JNA' in B and 'GEN' not in B and B['JNA'] is b and B[0] is b and [x for x in B] == [b], 'the books of the Bible')

def cases(tier):
    q = tier == 'quick'
    L = [(n, single, p) for n, p in bookmaker.structures(tier) if n in ('wide', 'wide from the start', 'wide, then a chapter', 'introduction') or not q]
    L += [('ranges', ranges, dict(counts=(3, 2, 2), kinds=(), form='tuple')), ('ranges by key', ranges, dict(counts=(2, 2), kinds=(), form='key')),
          ('ranges with headings', ranges, dict(counts=(2, 1), kinds=('', 'p', 's1', 'p+'), form='tuple')), ('over books', overBooks, dict(kinds=(), names=(('OBA', (2,)), ('JNA', (2, 1)), ('MIC', (1, 2)))))]
    if not q: L += [('more ranges', ranges, dict(counts=(4, 3, 5, 2), kinds=(), form='tuple')), ('more ranges with headings', ranges, dict(counts=(2, 2, 1), kinds=('', 'p', 's1', 'p+'), form='tuple'))]
    return L
