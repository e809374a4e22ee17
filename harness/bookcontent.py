"""P19: loading a book keeps all its content in order."""
from harness import common, bookmaker
PROPERTY = 'P19'
ASSUMPTIONS = ['lines as a USFM reader delivers them: known markers, verse lines starting with a number and a space']
OUTSIDE = 'notes and character formatting (P17), Sword and OSIS sources, more lines than stated'
def setup(): bookmaker.setup()

def structure(sx, **kw):
    m = bookmaker.make(sx, **kw)
    es = bookmaker.entries(bookmaker.book(m.lines, kw.get('BBB', 'JNA')))
    got = bookmaker.content(es)
    sx.observe('markers', [e.getMarker() for e in es])
    sx.check(len(got) == len(m.want), 'as many entries as the lines have parts')
    for e, (mk, t) in zip(got, m.want):
        sx.check(e.getMarker() == mk, 'the markers in order')
        sx.check(sx.same(e.getAdjustedText(), t), 'the text of each line')
        sx.check(sx.same(e.getCleanText(), t), 'the clean text of each line')


def contents(sx, m, BBB='JNA', kind='USFM3'):
    """The contents and the whole list of entries; checks the contents against what is wanted."""
    es = bookmaker.entries(bookmaker.book(m.lines, BBB, kind))
    got = bookmaker.content(es)
    sx.observe('markers', [e.getMarker() for e in es])
    sx.check(len(got) == len(m.want), 'as many entries as the lines have parts')
    for e, (mk, t) in zip(got, m.want):
        sx.check(e.getMarker() == mk, 'the markers in order')
        sx.check(sx.same(e.getAdjustedText(), t), 'the text of each line')
        sx.check(sx.same(e.getCleanText(), t), 'the clean text of each line')
    return es

def verses(sx, n):
    """Verse lines in all their forms."""
    m = bookmaker.Maker(sx); m.head('id', 'JNA test'); m.chapter(); m.para('p')
    last = 0
    for i in range(n):
        a = sx.int('a%d' % i, 1, 150); sx.assume(a > last)
        form = sx.choice('form%d' % i, ('plain', 'suffix', 'bridge', 'list'))
        num = str(a)
        if form == 'suffix': num = num + sx.char('s%d' % i, [(0x61, 0x66)])
        elif form == 'bridge': b = sx.int('b%d' % i, 1, 151); sx.assume(b > a); num = num + '-' + str(b)
        elif form == 'list': num = num + ',' + str(a + 1)
        last = a + 1
        rest = sx.choice('rest%d' % i, ('text', 'spaces', 'nothing', 'blank', 'blanks'))
        pre = sx.choice('pre%d' % i, ('', ' '))
        if rest in ('text', 'spaces'):
            t = m.text(); m.line('v', pre + num + (' ' if rest == 'text' else '   ') + t, ('v', num), ('v~', t))
        else: m.line('v', pre + num + {'nothing': '', 'blank': ' ', 'blanks': '  '}[rest], ('v', num))
    contents(sx, m)

def chapters(sx, n, BBB='JNA', spaces=('', ' '), cps=('', 'cp', 'cl', 's1'), ds=('', 'd', 'p'), vss=(0, 1, 2)):
    """Where the chapter number is printed: once in each chapter, before its first verse (or psalm heading)."""
    m = bookmaker.Maker(sx); m.head('id', BBB + ' test'); m.head('h', 'Name'); m.head('mt1', m.text())
    c = 0; want = []
    for i in range(n):
        a = sx.int('c%d' % i, 1, 150); sx.assume(a > c); c = a; C = str(a)
        m.line('c', sx.choice('pre%d' % i, spaces) + C + sx.choice('post%d' % i, spaces), ('c', C))
        cp = sx.choice('cp%d' % i, cps)
        shown = C
        if cp == 'cp': shown = m.text(); m.line('cp', shown, ('cp', shown))
        elif cp: m.head(cp, m.text())
        d = sx.choice('d%d' % i, ds)
        if d == 'd': m.head('d', m.text())
        elif d: m.para('p')
        vs = sx.choice('vs%d' % i, vss)
        for v in range(vs): m.line('v', '%d %s' % (v + 1, 'tt'), ('v', str(v + 1)), ('v~', 'tt'))
        want.append(None if not vs and d != 'd' else (C, shown, 'd' if d == 'd' else 'v'))
    es = contents(sx, m, BBB)
    j = -1; seen = None; found = [None] * n
    for i in range(len(es)):
        k = es[i].getMarker()
        if k == 'c': j += 1
        elif k == 'c#':
            sx.check(found[j] is None, 'the chapter number is printed once')
            nxt = [e.getMarker() for e in es[i + 1:] if e.getMarker()[0] != '\u00ac' and e.getMarker() != 'v=']
            found[j] = (es[i].getCleanText(), nxt[0])
    for a, b in zip(want, found):
        sx.check((a is None) == (b is None), 'chapter numbers are printed in every chapter with verses')
        if a is not None:
            sx.check(sx.same(b[0], a[1]), 'the number printed is the published chapter number')
            sx.check(b[1] == a[2], 'the number is printed before the first verse or psalm heading')

def chapterExtra(sx, n):
    """Something more on the line of a chapter number is kept after it."""
    m = bookmaker.Maker(sx); m.head('id', 'JNA test')
    C = str(sx.int('c', 1, 150)); t = sx.string('t', 1, n, 'xyz.') # no letter that may belong to the number
    m.line('c', C + sx.choice('sp', (' ', '  ')) + t, ('c', C), ('c~', t))
    m.para('p'); m.verse(m.text())
    es = bookmaker.entries(bookmaker.book(m.lines, 'JNA')); got = bookmaker.content(es)
    sx.check([e.getMarker() for e in got] == [w[0] for w in m.want], 'the markers in order')
    for e, (mk, x) in zip(got, m.want): sx.check(sx.same(e.getAdjustedText().strip(), x) and sx.same(e.getCleanText().strip(), x), 'the text of each line')

def implicit(sx, BBB, before):
    """A book without a chapter marker gets chapter one."""
    m = bookmaker.Maker(sx); m.head('id', BBB + ' test')
    k = sx.choice('k', before)
    if k == '': pass
    elif k in ('p', 'q1', 'm', 'nb', 'pi1', 'q2', 'li1', 'pc', 'qr'): pass
    elif k[-1] == '+': m.para(k[:-1], m.text())
    elif k in ('b', 'ie', 'ib'): m.line(k, '', (k, ''))
    else: m.head(k, m.text())
    m.lines.append(('id', 'x')); m.lines.pop()
    m.want.append(('c', '1'))
    if k in ('p', 'q1', 'm', 'nb', 'pi1', 'q2', 'li1', 'pc', 'qr'): m.line(k, '', (k, ''))
    v = sx.choice('v', (1, 2))
    m.v = v - 1
    m.verse(m.text()); m.verse(m.text())
    contents(sx, m, BBB)

QUOTES = [(0x3c, 0x3c), (0x3e, 0x3e), (0x61, 0x62)]
def quotes(sx, n, kind):
    """Angle brackets become quotation marks: the double ones first, then the single ones."""
    t = sx.string('t', n, n, QUOTES)
    out = ''; i = 0
    while i < n:
        if t[i] == '<' or t[i] == '>':
            if i + 1 < n and t[i + 1] == t[i]: out = out + ('\u201c' if t[i] == '<' else '\u201d'); i += 2
            else: out = out + ('\u2018' if t[i] == '<' else '\u2019'); i += 1
        else: out = out + t[i]; i += 1
    m = bookmaker.Maker(sx); m.head('id', 'JNA test'); m.chapter(); m.para('p')
    m.line('v', '1 ' + t, ('v', '1'), ('v~', out))
    contents(sx, m, 'JNA', kind)

def inside(sx, n, marks):
    """Paragraph markers inside a line start a new paragraph there."""
    m = bookmaker.Maker(sx); m.head('id', 'JNA test'); m.chapter(); m.para('p')
    host = sx.choice('host', ('v', 'p', 's1'))
    t = m.text(); line = t; want = [('v', '1'), ('v~', t)] if host == 'v' else [('p', ''), ('p~', t)] if host == 'p' else [(host, t)]
    for i in range(n):
        k = sx.choice('k%d' % i, marks)
        if k in ('b',): line = line + '\\' + k + ' '; want.append((k, '')); continue
        t = m.text(); line = line + sx.choice('sp%d' % i, (' ', '')) + '\\' + k + ' ' + t
        want += [(k, ''), ('p~', t)] if k not in bookmaker.HEADS else [(k, t)]
    m.line(host, '1 ' + line if host == 'v' else line, *want)
    m.v = 1; m.verse(m.text())
    contents(sx, m)

def spelling(sx):
    """Markers without their number are the markers of level one."""
    m = bookmaker.Maker(sx); m.head('id', 'JNA test')
    a, b = sx.choice('intro', (('mt', 'mt1'), ('imt', 'imt1'), ('is', 'is1'), ('mt2', 'mt2'), ('toc1', 'toc1'), ('io', 'io1')))
    t = m.text(); m.line(a, t, (b, t))
    m.chapter()
    a, b = sx.choice('head', (('s', 's1'), ('s2', 's2'), ('ms', 'ms1'), ('ms2', 'ms2'), ('r', 'r'), ('mr', 'mr')))
    t = m.text(); m.line(a, t, (b, t))
    a, b = sx.choice('para', (('q', 'q1'), ('q2', 'q2'), ('q3', 'q3'), ('pi', 'pi1'), ('li', 'li1'), ('li3', 'li3'), ('ph', 'ph1'), ('qm', 'qm1'), ('m', 'm'), ('lim', 'lim1')))
    t = m.text() if sx.choice('t', (True, False)) else ''
    if t: m.line(a, t, (b, ''), ('p~', t))
    else: m.line(a, t, (b, ''))
    m.verse(m.text())
    contents(sx, m)

def cases(tier):
    q = tier == 'quick'
    L = [(n, structure, p) for n, p in bookmaker.structures(tier)]
    L += [('verse lines', verses, dict(n=1)), ('chapters', chapters, dict(n=1)), ('psalms', chapters, dict(n=1, BBB='PSA')), ('two chapters', chapters, dict(n=2, spaces=('',), cps=('', 'cp', 's1'), ds=('', 'd'), vss=(0, 1)))]
    L += [('no chapter marker ' + B, implicit, dict(BBB=B, before=('', 'p', 'q1', 'm', 'nb', 'pi1', 'q2', 'li1', 'pc', 'qr', 'p+', 'q2+', 'b', 'ie', 'ib', 's1', 'ip', 'mt1', 'is1', 'd'))) for B in ('JDE', 'JNA')]
    L += [('quotation marks ' + k, quotes, dict(n=n, kind=k)) for n, k in ((4, 'USFM3'), (3, 'USFM2'), (3, 'USX'))]
    L += [('markers inside a line', inside, dict(n=1, marks=('p', 'q1', 'q2', 'b', 's1', 'm', 'li1', 'pi1', 'nb'))), ('two markers inside a line', inside, dict(n=2, marks=('p', 'q2', 'b', 's1'))), ('spellings', spelling, {}), ('more than a chapter number', chapterExtra, dict(n=3))]
    if not q: L += [('two verse lines', verses, dict(n=2)), ('three chapters', chapters, dict(n=3, spaces=('',), cps=('', 'cp'), ds=('', 'd'), vss=(0, 1))), ('two chapters in all forms', chapters, dict(n=2, spaces=('',))), ('three markers inside a line', inside, dict(n=3, marks=('p', 'q2', 's1'))), ('longer quotation marks', quotes, dict(n=6, kind='USFM3'))]
    return L
