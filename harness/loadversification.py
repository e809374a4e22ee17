"""P22: the versification found in a loaded Bible is that of its chapter and verse markers."""
from harness import common, bookmaker
PROPERTY = 'P22'
ASSUMPTIONS = ['chapter numbers rising within a book; verse lines starting with a number (or a span or list of two) and a space']
OUTSIDE = 'spans written with an en dash (refused when indexing); what the first entry (-1) counts in the introduction; split verses (2a, 2b) and repeated verses in the list of reordered verses; books without verses'
def setup(): bookmaker.setup()

def oracle(chs):
    """What the four lists should be, from [(C, [(text, first, last)])]"""
    ver, om, co, re = [], [], [], []
    for C, vs in chs:
        last = 0
        for text, a, b in vs:
            if a > last + 1: om += [(C, str(n)) for n in range(last + 1, a)]
            elif a <= last: re.append((C, str(last), text, a))
            if text != str(a): co.append((C, text))
            last = b
        ver.append((C, str(last)))
    return ver, om, co, re

def compare(sx, b, chs, again=True, intro=True):
    r = sx.attempt(b.getVersification)
    sx.check(r.ok, 'the versification is found')
    ver, om, co, re = r.value; wver, wom, wco, wre = oracle(chs)
    if ver and ver[0][0] == '-1': ver = ver[1:]
    sx.check(same(sx, ver, wver), 'the last verse of every chapter')
    sx.check(same(sx, om, wom), 'the omitted verses')
    sx.check(same(sx, co, wco), 'the combined verses')
    sx.check(same(sx, [x for x in re if not repeated(x)], [x[:3] for x in wre if not repeated(x)]), 'the reordered verses')
    sx.check(b.getNumChapters() == int(chs[-1][0]), 'the number of chapters')
    for C, n in wver:
        sx.check(b.getNumVerses(C) == int(n), 'the number of verses')
        sx.check(b.getNumVerses(int(C)) == int(n), 'the number of verses of a chapter given as a number')
    sx.check(b.getNumVerses(str(int(chs[-1][0]) + 1)) is None, 'no verses in a chapter that is not there')
    if again: r2 = b.getVersification(); sx.check(same(sx, r2[0], r.value[0]) and same(sx, r2[1], om) and same(sx, r2[2], co) and same(sx, r2[3], re), 'asking again gives the same')

def repeated(x): return x[1] == x[2].split('-')[0].split(',')[0]
def same(sx, a, b):
    if len(a) != len(b): return False
    ok = True
    for x, y in zip(a, b):
        if len(x) != len(y): return False
        for p, q in zip(x, y): ok = sx.both(ok, sx.same(p, q))
    return ok

FORMS = ('plain', 'letter', 'span', 'list', 'span to letter', 'bracket')
def written(form, a, b):
    """How verse a (to b) is written; -> marker text, text without letters, last verse"""
    A, B = str(a), str(b)
    if form == 'plain': return A, A, a
    if form == 'letter': return A + 'a', A, a
    if form == 'bracket': return '[' + A + ']', A, a
    if form == 'span': return A + '-' + B, A + '-' + B, b
    if form == 'list': return A + ',' + B, A + ',' + B, b
    return A + '-' + B + 'a', A + '-' + B, b

def verses(sx, n, starts, steps, forms, BBB='JNA'):
    """One chapter of n verses of any form and any distance from the one before"""
    m = bookmaker.Maker(sx); m.head('id', BBB + ' test'); m.chapter(); m.para('p')
    vs = []; last = None
    for i in range(n):
        a = sx.choice('start', starts) if last is None else last + sx.choice('step%d' % i, steps)
        if a < 1: sx.assume(False)
        w, text, e = written(sx.choice('form%d' % i, forms), a, a + 1)
        m.line('v', w + ' ' + m.text()); vs.append((text, a, e)); last = e
    compare(sx, bookmaker.book(m.lines, BBB), [('1', vs)])

def numbers(sx, far):
    """Any verse numbers"""
    m = bookmaker.Maker(sx); m.head('id', 'PSA test')
    c = sx.int('c', 1, 151); m.line('c', str(c), ('c', str(c))); m.para('p')
    c = sx.concrete(c) if not far else c
    a = sx.int('a', 1, 176); d = sx.int('d', 1, 3)
    a = sx.concrete(a); d = sx.concrete(d)
    m.line('v', str(a) + ' ' + m.text()); m.line('v', str(a + d) + ' ' + m.text())
    compare(sx, bookmaker.book(m.lines, 'PSA'), [(str(c), [(str(a), a, a), (str(a + d), a + d, a + d)])])

def chapters(sx, n, BBB, gaps, between, intro, explicit=True):
    """Chapters with any numbers of verses, and other lines in between"""
    m = bookmaker.Maker(sx); m.head('id', BBB + ' test'); m.head('mt1', m.text())
    for i in range(intro): bookmaker.introLine(m, sx.choice('i%d' % i, ('imt1', 'ip', 'is1', 'io1', 'rem')))
    C = 0; chs = []
    for i in range(n):
        if explicit:
            C += sx.choice('gap%d' % i, gaps); m.line('c', str(C) + sx.choice('tail%d' % i, ('', ' ') if n == 1 else ('',)))
        else: C = 1
        k = sx.choice('nv%d' % i, (1, 2, 3) if n == 1 else (1, 2)); vs = []
        for v in range(1, k + 1):
            x = sx.choice('b%d.%d' % (i, v), between) if n == 1 or v == k else ''
            if x in bookmaker.HEADS: m.head(x, 'Heading'); m.para('p')
            elif x == 'cp': m.line('cp', m.text())
            elif x == 'q+': m.para('q1', 'poetry')
            elif x == 'note': m.line('p', '')
            elif x: m.para(x)
            t = m.text()
            if x == 'note': t = t + '\\f + \\fr 1.1\\ft 9\\f*'
            m.line('v', str(v) + ' ' + t); vs.append((str(v), v, v))
        chs.append((str(C), vs))
    b = bookmaker.book(m.lines, BBB)
    compare(sx, b, chs)

def bible(sx, BBBs):
    """The numbers of a Bible are those of its books"""
    L = []; chss = {}
    for BBB in BBBs:
        m = bookmaker.Maker(sx); m.head('id', BBB + ' test'); chs = []
        form = sx.choice('form' + BBB, ('plain', 'omitted', 'combined', 'reordered'))
        for C in range(1, sx.choice('n' + BBB, (1, 2)) + 1):
            m.chapter(); m.para('p')
            vs = {'plain': [('1', 1, 1), ('2', 2, 2)], 'omitted': [('1', 1, 1), ('4', 4, 4)], 'combined': [('1', 1, 1), ('2-3', 2, 3)], 'reordered': [('1', 1, 1), ('3', 3, 3), ('2', 2, 2), ('4', 4, 4)]}[form]
            for t, a, b in vs: m.line('v', t + ' text')
            chs.append((str(C), vs))
        chss[BBB] = chs; L.append(bookmaker.book(m.lines, BBB))
    B = bookmaker.bible(L)
    r = B.getVersification()
    for i in (0, 1, 2, 3):
        for BBB in BBBs:
            w = [x[:3] for x in oracle(chss[BBB])[i]]
            got = r[i].get(BBB, [])
            sx.check(same(sx, [x for x in got if x[0] != '-1'], w), 'the versification of each book')
        sx.check(all([x in BBBs for x in r[i]]), 'no other books')
    for BBB in BBBs:
        sx.check(B.getNumChapters(BBB) == len(chss[BBB]), 'the number of chapters of a book of the Bible')
        for C, vs in chss[BBB]: sx.check(B.getNumVerses(BBB, C) == vs[-1][2] and B.getNumVerses(BBB, int(C)) == vs[-1][2], 'the number of verses of a chapter of the Bible')
        sx.check(B.getNumVerses(BBB, str(len(chss[BBB]) + 1)) is None, 'no verses in a chapter that is not there')
    sx.check(B.getNumChapters('GEN') is None and B.getNumVerses('GEN', '1') is None, 'no numbers for a book that is not there')
    r = sx.attempt(B.getNumChapters, 'XXX'); sx.check(not r.ok and r.kind == 'KeyError', 'an unknown book is refused')

def cases(tier):
    q = tier == 'quick'
    L = [('verses', verses, dict(n=2, starts=(1, 2, 3), steps=(1, 2, 3, 0, -1), forms=FORMS)),
         ('three verses', verses, dict(n=3, starts=(1, 9), steps=(1, 2, -1), forms=('plain', 'span', 'list'))),
         ('many plain verses', verses, dict(n=4, starts=(1, 98), steps=(1, 2, 4, -1), forms=('plain',))),
         ('chapters', chapters, dict(n=2, BBB='JNA', gaps=(1, 2), between=('', 's1', 'q1'), intro=0)),
         ('between', chapters, dict(n=1, BBB='PSA', gaps=(1,), between=('', 'd', 'cp', 'q+', 'note', 'b', 'ms1'), intro=1)),
         ('without chapter', chapters, dict(n=1, BBB='JDE', gaps=(1,), between=('', 's1', 'q+'), intro=1, explicit=False)),
         ('Bible', bible, dict(BBBs=('MAT', 'JNA')))]
    if not q:
        L += [('any numbers', numbers, dict(far=False)), ('more chapters', chapters, dict(n=3, BBB='JNA', gaps=(1, 2, 9), between=('', 's1'), intro=1)),
              ('four verses', verses, dict(n=4, starts=(1,), steps=(1, 2, -1), forms=('plain', 'letter', 'span', 'list'))), ('more books', bible, dict(BBBs=('MAT', 'JNA', 'REV')))]
    return L
