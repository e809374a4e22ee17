"""P37: pointing, accents and marks are taken off Hebrew and Greek text, and Hebrew is transliterated letter by letter."""
import unicodedata
from harness import common
PROPERTY = 'P37'
ASSUMPTIONS = ['which code points are accents, points, marks and letters is taken from the Unicode character names']
OUTSIDE = 'capital Greek letters with accents and decomposed Greek text, the choice of Latin letters for Hebrew points, presentation forms'

def names(test): return ''.join(chr(c) for c in range(0x591, 0x5f5) if test(unicodedata.name(chr(c), '')))
ACCENTS = names(lambda n: n.startswith('HEBREW ACCENT') or n == 'HEBREW MARK MASORA CIRCLE')
METEG, MAQAF, SOFPASUQ = '\u05bd', '\u05be', '\u05c3'
MARKS = '\u05bc\u05bf\u05c0\u05c1\u05c2\u05c4\u05c5\u05c7'
DOTS = '\u05c1\u05c2'
VOWELS = ''.join(c for c in names(lambda n: n.startswith('HEBREW POINT')) if c not in MARKS and c != METEG)
LETTERS = ''.join(chr(c) for c in range(0x5d0, 0x5eb))
FINALS = {'\u05da': '\u05db', '\u05dd': '\u05de', '\u05df': '\u05e0', '\u05e3': '\u05e4', '\u05e5': '\u05e6'}
PATAH, SEGOL = '\u05b7', '\u05b6'
HEBREW = LETTERS + ACCENTS + VOWELS + MARKS + METEG + MAQAF + SOFPASUQ + ' '

def setup():
    global G, H, K, GREEK, PLAIN
    G = common.preload()
    from BibleOrgSys.OriginalLanguages import Hebrew as H, Greek as K
    GREEK = {}
    for c in list(range(0x370, 0x400)) + list(range(0x1f00, 0x2000)):
        d = unicodedata.normalize('NFD', chr(c))
        if unicodedata.category(chr(c)) == 'Ll' and len(d) > 1 and d[0] in K.ALL_LETTERS: GREEK[chr(c)] = d[0]
    PLAIN = 'αβγδεζηθικλμνξοπρσςτυφχψω'

# -- Hebrew: what is taken off

def step(sx, n, dom, what, own):
    t = sx.string('t', 0, n, dom)
    h = H.Hebrew(t)
    if what == 'cantillation': got = h.removeCantillationMarks() if own else h.removeCantillationMarks(t); gone = ACCENTS
    elif what == 'vowels': got = h.removeVowelPointing() if own else h.removeVowelPointing(t); gone = VOWELS
    elif what == 'marks': got = h.removeOtherMarks() if own else h.removeOtherMarks(t); gone = MARKS + METEG
    elif what == 'marks but dots': got = h.removeOtherMarks(removeSinShinDots=False) if own else h.removeOtherMarks(t, removeSinShinDots=False); gone = ''.join(c for c in MARKS + METEG if c not in DOTS)
    else: got = h.removeAllMetegOrSiluq() if own else h.removeAllMetegOrSiluq(t); gone = METEG
    sx.observe('t', t)
    want = ''.join([c for c in t if c not in gone])
    sx.check(got == want, 'just these marks are taken off: ' + what)
    sx.check(h.currentText == (want if own else t) and h.originalText == t, 'the object has its original and its current text')

def meteg(sx, n, dom, what, own):
    """A meteg straight after a patah or segol goes with the vowel points, any other with the accents."""
    t = sx.string('t', 0, n, dom)
    for a, b in zip(t, t[1:]): sx.assume(sx.no(sx.both(a == METEG, b == METEG)))
    h = H.Hebrew(t)
    if what == 'cantillation': got = h.removeCantillationMarks(removeMetegOrSiluq=True) if own else h.removeCantillationMarks(t, removeMetegOrSiluq=True); gone = ACCENTS
    else: got = h.removeVowelPointing(removeMetegOrSiluq=True) if own else h.removeVowelPointing(t, removeMetegOrSiluq=True); gone = VOWELS
    sx.observe('t', t)
    want = []; before = ''
    for c in t:
        if c == METEG: keep = (before in (PATAH, SEGOL)) == (what == 'cantillation')
        else: keep = c not in gone
        if keep: want.append(c)
        before = c
    sx.check(got == ''.join(want), 'the right metegs go with the ' + what)
    sx.check(h.currentText == (''.join(want) if own else t) and h.originalText == t, 'the object has its original and its current text')

def steps(sx, n, dom):
    """One step after the other leaves the consonants, the spaces and the punctuation."""
    t = sx.string('t', 0, n, dom)
    h = H.Hebrew(t)
    h.removeCantillationMarks(); h.removeVowelPointing(); h.removeOtherMarks()
    sx.observe('t', t)
    sx.check(h.currentText == ''.join([c for c in t if c in LETTERS or c in (' ', MAQAF, SOFPASUQ)]), 'only the letters are left')
    sx.check(h.originalText == t, 'the original text is kept')

def consonants(sx, n, dom):
    t = sx.string('t', 0, n, dom)
    bad = False
    for j, c in enumerate(t):
        if c not in LETTERS and c not in (' ', MAQAF): bad = True
        if c in FINALS and j + 1 < len(t) and t[j + 1] not in (' ', MAQAF): bad = True
    sx.observe('t', t)
    h = H.Hebrew(t)
    sx.check(bool(h.verifyConsonantsOnly()) == bad and bool(H.Hebrew('').verifyConsonantsOnly(t)) == bad, 'an error is reported for anything but letters, and for final letters inside a word')
    sx.check(h.currentText == t, 'checking changes nothing')

# -- Transliteration

def letters(sx, scheme):
    """Every letter, alone and with a point, by the table of the scheme."""
    table = H.transliterationSchemes[scheme]; T = lambda t: H.Hebrew('').transliterate(t, scheme=scheme)
    c = sx.char('c', LETTERS + MAQAF + SOFPASUQ)
    m = sx.char('m', VOWELS + MARKS + METEG) if sx.bool('pointed') else ''
    got = T(c + m); c, m = sx.concrete(c), sx.concrete(m); sx.observe('c', c + m)
    first = {}
    for h, tr in table: first.setdefault(h, tr)
    plain = FINALS.get(c, c)
    get = lambda x: first[x] if x in first else x
    want = first[c + m] if c + m in first else get(c) + get(m)
    sx.check(got == want, 'a letter becomes what its table says')
    if plain in LATIN: sx.check(T(c) == LATIN[plain][SCHEMES.index(scheme)], 'the plain letters')

SCHEMES = ('Default', 'Standard', 'Names')
LATIN = {'\u05d0': ('', '\u02be', ''), '\u05d1': ('\u2c71', 'v', '\u2c71'), '\u05d2': ('g',) * 3, '\u05d3': ('d',) * 3, '\u05d4': ('h',) * 3, '\u05d5': ('v', 'w', 'v'), '\u05d6': ('z',) * 3,
         '\u05d7': ('\u0127', '\u1e25', '\u0127'), '\u05d8': ('\u0167',) * 3, '\u05d9': ('y',) * 3, '\u05db': ('k',) * 3, '\u05dc': ('l',) * 3, '\u05de': ('m',) * 3, '\u05e0': ('n',) * 3,
         '\u05e1': ('\u015f',) * 3, '\u05e2': ('',) * 3, '\u05e4': ('f', '\u0304p', 'f'), '\u05e6': ('\u02a6', '\u1e63', '\u02a6'), '\u05e7': ('q',) * 3, '\u05e8': ('r',) * 3, '\u05ea': ('t',) * 3}

def pieces(sx, n, dom, starts, scheme):
    """A text is transliterated piece by piece."""
    a = sx.string('a', 0, n, dom); b = sx.char('b', starts) + sx.string('c', 0, n - 1, dom)
    T = lambda t: H.Hebrew('').transliterate(t, scheme=scheme)
    x, y, z = T(a + b), T(a), T(b)
    sx.observe('a', a); sx.observe('b', b)
    sx.check(x == y + z, 'pieces which start with a letter are independent of what is before them')
    sx.check(H.Hebrew(a + b).transliterate(scheme=scheme) == x, 'the text of the object')

def others(sx, n, dom):
    t = sx.string('t', 0, n, dom)
    h = H.Hebrew(t)
    for f in (h.transliterate, h.removeCantillationMarks, h.removeVowelPointing, h.removeOtherMarks): sx.check(f(t) == t, 'what is not Hebrew stays')
    sx.check(h.currentText == t, 'the object is left alone')

# -- Greek

def greek(sx, n, dom):
    t = sx.string('t', 0, n, dom)
    own = sx.bool('own')
    k = K.Greek(t if own else '')
    got = k.removeAccents() if own else k.removeAccents(t)
    sx.observe('t', t)
    sx.check(len(got) == len(t), 'letter by letter')
    for g, c in zip(got, t):
        c = sx.concrete(c)
        sx.check(g == GREEK.get(c, c), 'accented letters become plain ones, the rest stays')
    sx.check(k.originalText == (t if own else ''), 'the original text is kept')

def cases(tier):
    q = tier == 'quick'
    few = '\u05d0\u05e9' + PATAH + '\u05b9' + METEG + '\u0591\u05af\u05bc\u05c1\u05c2' + MAQAF + ' \n'
    out = []
    for w in ('cantillation', 'vowels', 'marks', 'marks but dots', 'meteg'):
        out.append(('step ' + w, step, dict(n=2 if q else 3, dom=HEBREW + '\n', what=w, own=False)))
        out.append(('own ' + w, step, dict(n=2 if q else 3, dom=few, what=w, own=True)))
    for w in ('cantillation', 'vowels'):
        for own in (False, True):
            out.append(('metegs %s %s' % (w, 'own' if own else 'given'), meteg, dict(n=3 if q else 4, dom='\u05d0' + PATAH + '\u05b6\u05b8\u0591' + METEG + '\n', what=w, own=own)))
            out.append(('many metegs %s %s' % (w, 'own' if own else 'given'), meteg, dict(n=5 if q else 7, dom='\u05d0' + PATAH + METEG, what=w, own=own)))
    out.append(('steps', steps, dict(n=2 if q else 3, dom=few[:-1])))
    out.append(('consonants', consonants, dict(n=2 if q else 3, dom=LETTERS + PATAH + '\u0591' + MAQAF + ' \n')))
    for s in SCHEMES:
        out.append(('letters ' + s, letters, dict(scheme=s)))
        out.append(('pieces ' + s, pieces, dict(n=3 if q else 4, dom='\u05d4\u05d5\u05e9\u05d0' + '\u05b8\u05bc\u05c1' + 'a', starts='\u05d4\u05d5\u05e9\u05da' + MAQAF + ' ', scheme=s)))
    out.append(('others', others, dict(n=2, dom='aZ1\u00e9\u2019\u03b1\u05c6')))
    out.append(('greek letters', greek, dict(n=1 if q else 2, dom=PLAIN + ''.join(sorted(GREEK)) + ' ,.\n')))
    out.append(('greek text', greek, dict(n=3 if q else 4, dom='\u03b1\u03c2\u1f00\u03ad\u1fe5 ,')))
    return out
