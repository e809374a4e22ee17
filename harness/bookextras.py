"""P17: notes and other extras move out of the text with their positions; the clean text has no markers."""
from harness import common, bookmaker
PROPERTY = 'P17'
ASSUMPTIONS = ['closed notes in the usual USFM forms', 'texts without backslash, angle brackets, quotes, bars or spaces, except where stated']
OUTSIDE = 'unclosed or nested notes, Sword and OSIS sources, spaces in the clean text of character formatting inside notes'
def setup(): bookmaker.setup()

BS = chr(92)
TEXT = [(0x21, 0x21), (0x23, 0x25), (0x27, 0x3b)] + bookmaker.TEXT[2:]   # without & (character entities)
def note(m, kind, t):
    """-> (source, text kept, clean text kept, [(type, offset into the text kept, note, clean note or None)])"""
    b = BS
    if kind == 'f': return b + 'f + ' + b + 'ft ' + t + b + 'f*', '', '', [('fn', 0, '+ ' + b + 'ft ' + t, t)]
    if kind == 'fr': return b + 'f + ' + b + 'fr 1:1 ' + b + 'ft ' + t + b + 'f*', '', '', [('fn', 0, '+ ' + b + 'fr 1:1 ' + b + 'ft ' + t, '1:1 ' + t)]
    if kind == 'fk': return b + 'f a ' + b + 'fk ' + t + b + 'fk* ' + b + 'fq ' + t + b + 'fq*' + b + 'ft xx' + b + 'f*', '', '', [('fn', 0, 'a ' + b + 'fk ' + t + b + 'fk* ' + b + 'fq ' + t + b + 'fq*' + b + 'ft xx', 'a ' + t + ' ' + t + 'xx')]
    if kind == 'f-': return b + 'f - ' + b + 'ft ' + t + b + 'f*', '', '', [('fn', 0, '+ ' + b + 'ft ' + t, t)]
    if kind == 'f0': return b + 'f + ' + t + b + 'f*', '', '', [('fn', 0, '+ ' + b + 'ft ' + t, t)]
    if kind == 'fe': return b + 'fe + ' + b + 'ft ' + t + b + 'fe*', '', '', [('en', 0, '+ ' + b + 'ft ' + t, t)]
    if kind == 'x': return b + 'x - ' + b + 'xo 1:1 ' + b + 'xt ' + t + b + 'x*', '', '', [('xr', 0, '+ ' + b + 'xo 1:1 ' + b + 'xt ' + t, '1:1 ' + t)]
    if kind == 'x0': return b + 'x * ' + t + b + 'x*', '', '', [('xr', 0, '* ' + b + 'xt ' + t, '* ' + t)]
    if kind == 'str': return b + 'str ' + t + b + 'str*', '', '', [('str', 0, t, t)]
    if kind == 'sem': return b + 'sem ' + t + b + 'sem*', '', '', [('sem', 0, t, t)]
    if kind == 'fig': return b + 'fig ' + t + '|src="a.jpg" size="col" ref="1:1"' + b + 'fig*', '', '', [('fig', 0, t + '|src="a.jpg" size="col" ref="1:1"', None)]
    if kind == 'w': return b + 'w ' + t + '|strong="H1"' + b + 'w*', t, t, [('ww', len(t), t + '|strong="H1"', None)]
    if kind == 'w0': return b + 'w ' + t + b + 'w*', b + 'w ' + t + b + 'w*', t, []
    if kind == 'vp': return b + 'vp ' + t + b + 'vp*', '', '', [('vp', 0, t, t)]
    if kind == 'add': return b + 'add ' + t + b + 'add*', b + 'add ' + t + b + 'add*', t, []
    if kind == 'nest':
        x = b + 'add a' + b + '+nd ' + t + b + '+nd*' + b + 'add*'
        return x, x, 'a' + t, []
    if kind == 'qs': return b + 'qs ' + t + b + 'qs*', b + 'qs ' + t + b + 'qs*', t, []
ALL = ('f', 'fr', 'fk', 'f-', 'f0', 'fe', 'x', 'x0', 'str', 'sem', 'fig', 'w', 'w0', 'vp', 'add', 'nest', 'qs')
SOME = ('f', 'x', 'fe', 'w', 'vp', 'add')
HOSTS = ('v', 'p', 'q1', 's1', 'd', 'mt1')

def extras(sx, n, hosts, kinds, last, sizes=(2,), notes=None):
    m = bookmaker.Maker(sx); text = lambda *a: m.text(*(a or (2, 2)), TEXT)
    host = sx.choice('host', hosts)
    source = kept = clean = ''; want = []; vps = []
    k = sx.choice('n0', sizes)
    t0 = text(k, k)
    source = kept = clean = t0
    for i in range(n):
        kind = sx.choice('kind%d' % i, kinds)
        if kind == 'vp': sx.assume(host == 'v')
        t = text() if notes is None else m.text(notes[0], notes[0], notes[1])
        if notes is not None: [sx.assume(t[0] != c) for c in ' +-']; sx.assume(t[-1] != ' ')
        s, tk, ck, L = note(m, kind, t)
        for ty, off, nt, cl in L:
            want.append((ty, len(kept) + off, nt, cl))
            if ty == 'vp': vps.append(t)
        source = source + s; kept = kept + tk; clean = clean + ck
        if i < n - 1 or last:
            t = text()
            source = source + t; kept = kept + t; clean = clean + t
    m.head('id', 'JNA test')
    if host == 'mt1': m.line('mt1', source)
    m.chapter(); m.para('p')
    if host == 's1' or host == 'd': m.line(host, source)
    if host == 'v': m.line('v', '1 ' + source); m.line('v', '2 ' + 'z' * 30)
    else:
        m.line('v', '1 ' + 'z' * 30)
        if host in ('p', 'q1'): m.line(host, source)
    sx.observe('lines', m.lines)
    es = bookmaker.content(bookmaker.entries(bookmaker.book(m.lines)))
    tm = {'v': 'v~', 'p': 'p~', 'q1': 'p~'}.get(host, host)
    found = [e for e in es if e.getMarker() == tm and e.getAdjustedText() != 'z' * 30]
    sx.check(len(found) >= 1, 'the line is there')
    e = found[0]
    sx.check(sx.same(e.getAdjustedText(), kept), 'the text without the notes')
    sx.check(sx.same(e.getCleanText(), clean), 'the clean text has no notes and no markers')
    ex = e.getExtras()
    got = [] if ex is None else [ex[i] for i in range(len(ex))]
    sx.check(len(got) == len(want), 'as many extras as notes')
    for x, (ty, ix, nt, cl) in zip(got, want):
        sx.check(x.getType() == ty, 'the types of the notes in order')
        sx.check(x.getIndex() == ix, 'the place of the note in the text')
        sx.check(sx.same(x.getText(), nt), 'the text of the note')
        if cl is not None: sx.check(sx.same(x.getCleanText(), cl), 'the clean text of the note')
    vp = [e.getAdjustedText() for e in es if e.getMarker() == 'vp#']
    sx.check(len(vp) == len(vps) and all([sx.same(a, b) for a, b in zip(vp, vps)]), 'published verse numbers come in front')

def cases(tier):
    q = tier == 'quick'
    N = (4, [(0x61, 0x62), (0x2b, 0x2b), (0x2d, 0x2d), (0x20, 0x20)])
    L = [('one note', extras, dict(n=1, hosts=HOSTS, kinds=ALL, last=True)), ('one note at the end', extras, dict(n=1, hosts=('v', 'q1', 's1'), kinds=ALL, last=False)),
         ('two notes', extras, dict(n=2, hosts=('v',), kinds=ALL, last=True)), ('no text before', extras, dict(n=1, hosts=('v', 'p'), kinds=ALL, last=True, sizes=(0, 1))),
         ('note texts with signs', extras, dict(n=1, hosts=('v',), kinds=('f', 'x', 'fr', 'sem'), last=True, notes=N)),
         ('three notes', extras, dict(n=3, hosts=('v',), kinds=SOME, last=True))]
    L += [('two notes elsewhere', extras, dict(n=2, hosts=('p', 's1', 'd', 'mt1'), kinds=ALL, last=True))]
    if not q: L += [('three notes of any kind', extras, dict(n=3, hosts=('v',), kinds=ALL, last=True)), ('four notes', extras, dict(n=4, hosts=('v',), kinds=SOME, last=True))]
    return L
