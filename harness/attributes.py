"""P15: attributes of word and figure fields."""
from harness import common
PROPERTY = 'P15'
ASSUMPTIONS = ['attribute lists of the USFM3 form name="value" or name=value separated by spaces; distinct attribute names']
OUTSIDE = 'malformed attribute lists (unterminated quotes, names with other characters, repeated names)'
TEXT = 'ab1=|"\' \\.é\u05d0'

def setup():
    global II
    common.preload()
    from BibleOrgSys.Internals import InternalBibleInternals as II_
    II = II_

def attrText(sx, names, unquoted, lens, seps):
    text = ''; exp = []
    for i, n in enumerate(names):
        sp = sx.oneof('sp%d' % i, seps if i else ['', ' '])
        if unquoted[i]:
            v = sx.string('v%d' % i, 1, lens, TEXT.replace(' ', '').replace('|', ''))
            sx.assume(sx.no(sx.same(v[0], '"')))
            text = text + sp + n + '=' + v
        else:
            v = sx.string('v%d' % i, 0, lens, TEXT.replace('"', '').replace('|', ''))
            text = text + sp + n + '="' + v + '"'
        exp.append((n, v))
    return text, exp

def word(sx, names, unquoted, lens, tail):
    w = sx.string('w', 0 if len(names) < 2 else 1, 2, TEXT.replace('|', ''))
    t, exp = attrText(sx, names, unquoted, lens, [' ', '  '])
    t = t + sx.oneof('tail', tail)
    d = II.parseWordAttributes('W', 'GEN', '1', '2', w + '|' + t)
    exp = [('word', w)] + [(n[2:] if n[:2] == 'x-' else n, v) for n, v in exp]
    same(sx, d, exp)

def same(sx, d, exp):
    sx.check(sorted(d) == sorted([n for n, v in exp]), 'exactly the attributes given')
    for n, v in exp: sx.check(sx.same(d[n], v), 'the value of the attribute')

def anyName(sx, n, lens):
    """Private attributes with any name."""
    nm = sx.string('nm', 1, n, 'abx-Z')
    v = sx.string('v', 1, lens, 'ab=x')
    u = sx.bool('u')
    t = 'x-' + nm + '=' + (v if u else '"' + v + '"')
    d = II.parseWordAttributes('W', 'GEN', '1', '2', 'w|lemma="m" ' + t)
    sx.check(len(d) == 3 and sx.same(d['lemma'], 'm'), 'exactly the attributes given')
    names = [k for k in d if not (k == 'word' or k == 'lemma')]
    sx.check(len(names) == 1 and sx.same(names[0], nm), 'the name without its x- prefix')
    sx.check(sx.same(d[names[0]], v), 'the value of the attribute')

def lemma(sx, n):
    """A single unnamed attribute is the lemma."""
    w = sx.string('w', 0, 2, TEXT.replace('|', '')); v = sx.string('v', 0, n, [(0x20, 0x21), (0x23, 0x26), (0x28, 0x3c), (0x3e, 0x7b), (0x7d, 0x7e), (0xa0, 0x17f), (0x5d0, 0x5ea), (0x370, 0x3ff)])
    d = II.parseWordAttributes('W', 'GEN', '1', '2', w + '|' + v)
    same(sx, d, [('word', w), ('lemma', v)])

BETTER = {'alt': 'altDescription', 'src': 'sourceFilename', 'size': 'relativeSize', 'loc': 'locationOrRange', 'copy': 'copyrightOrRightsHolder', 'ref': 'referenceCV'}
def figure3(sx, names, unquoted, lens):
    c = sx.string('c', 0, 2, TEXT.replace('|', ''))
    t, exp = attrText(sx, names, unquoted, lens, [' '])
    t = t + sx.oneof('tail', ['', ' '])
    d = II.parseFigureAttributes('W', 'GEN', '1', '2', c + '|' + t)
    sx.check(d.get('USFM') == 3, 'recognised as USFM3')
    same(sx, d, [('USFM', 3), ('caption', c)] + [(BETTER[n], v) for n, v in exp])

NAMES2 = ['altDescription', 'sourceFilename', 'relativeSize', 'locationOrRange', 'copyrightOrRightsHolder', 'caption', 'referenceCV']
def figure2(sx, n, lens):
    """USFM2: up to seven fields by position."""
    bits = [sx.string('b%d' % i, 0, lens, 'a1=".: ') for i in range(n)]
    if n == 2: sx.assume(sx.no('=' in bits[0] + bits[1]))
    d = II.parseFigureAttributes('W', 'GEN', '1', '2', '|'.join(bits))
    sx.check(d.get('USFM') == 2, 'recognised as USFM2')
    same(sx, d, [('USFM', 2)] + list(zip(NAMES2, bits)))

def cases(tier):
    q = tier == 'quick'
    n = 3 if q else 6
    L = []
    for names in (['lemma'], ['strong'], ['x-morph'], ['x-a-b']):
        for u in (False, True): L.append(('word %s%s' % (names[0], ' unquoted' if u else ''), word, {'names': names, 'unquoted': [u], 'lens': n, 'tail': ['', ' ']}))
    for names in (['lemma', 'strong'], ['x-morph', 'lemma'], ['strong', 'x-tw']):
        for u in ([0, 0], [1, 0], [0, 1], [1, 1]): L.append(('word %s %s' % (' '.join(names), u), word, {'names': names, 'unquoted': u, 'lens': 2 if q else 3, 'tail': ['']}))
    L.append(('word three', word, {'names': ['lemma', 'strong', 'x-morph'], 'unquoted': [0, 0, 0], 'lens': 1 if q else 2, 'tail': ['', ' ']}))
    L.append(('private attributes', anyName, {'n': 3 if q else 5, 'lens': 2 if q else 3}))
    L.append(('lemma only', lemma, {'n': 5 if q else 8}))
    for a in BETTER:
        for u in (False, True): L.append(('figure %s%s' % (a, ' unquoted' if u else ''), figure3, {'names': [a], 'unquoted': [u], 'lens': 2 if q else 5}))
    for names in (['src', 'size'], ['alt', 'src'], ['loc', 'ref'], ['copy', 'alt']):
        for u in ([0, 0], [1, 0], [0, 1]): L.append(('figure %s %s' % (' '.join(names), u), figure3, {'names': names, 'unquoted': u, 'lens': 1 if q else 3}))
    L.append(('figure all', figure3, {'names': ['src', 'size', 'loc', 'copy', 'ref', 'alt'], 'unquoted': [0]*6, 'lens': 1}))
    for k in range(1, 8): L.append(('figure USFM2 %d' % k, figure2, {'n': k, 'lens': 2 if k < 4 else 1}))
    return L
