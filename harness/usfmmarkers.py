"""P36: the USFM marker tables say what the data files say, and markers are found in a line where they are."""
from harness import common
PROPERTY = 'P36'
ASSUMPTIONS = ['the data are those of DataFiles/USFM2Markers.xml and DataFiles/USFM3Markers.xml, read anew by the check']
OUTSIDE = 'lines with a backslash which starts no marker, a marker opened again while it is still open, the contexts inside footnotes and cross-references, fields closed by another marker when removed'
BS = chr(92)

def setup():
    global G, M, MOD, DATA, RAW, NUM, ORDER, STORED
    G = common.preload()
    import xml.etree.ElementTree as ET
    from BibleOrgSys.Reference import USFM2Markers as U2, USFM3Markers as U3
    from BibleOrgSys.Reference.Converters.USFM2MarkersConverter import USFM2MarkersConverter
    from BibleOrgSys.Reference.Converters.USFM3MarkersConverter import USFM3MarkersConverter
    M = {}; MOD = {2: U2, 3: U3}; DATA = {}; RAW = {}; NUM = {}; ORDER = {}; STORED = {}
    for n, mod, conv in ((2, U2, USFM2MarkersConverter), (3, U3, USFM3MarkersConverter)):
        cls = getattr(mod, 'USFM%dMarkers' % n)
        c = conv(); c.loadAndValidate(); DATA[n] = c.importDataToPython()
        STORED[n] = getattr(cls().loadData(), '_USFM%dMarkers__DataDict' % n)
        m = cls(); setattr(m, '_USFM%dMarkers__DataDict' % n, DATA[n]); M[n] = m
        tree = ET.parse(G.BOS_DATAFILES_FOLDERPATH.joinpath('USFM%dMarkers.xml' % n)).getroot()
        RAW[n] = {}; NUM[n] = {}; ORDER[n] = []
        for e in tree:
            if e.tag != 'USFMMarker': continue
            d = {x.tag: x.text for x in e}; r = d['marker']
            RAW[n][r] = d; NUM[n][r] = r; ORDER[n].append(r)
            if d['highestNumberSuffix'] != 'None':
                d['numbered'] = [(r[:-2] + str(k) + r[-2:] if r[-2:] in ('-s', '-e') else r + str(k)) for k in range(1, int(d['highestNumberSuffix']) + 1)]
                for x in d['numbered']: NUM[n][x] = r
            else: d['numbered'] = None

# -- What is known of a marker

CLOSED = {'No': 'N', 'Always': 'A', 'Optional': 'O', 'Self': 'S'}; CONTENT = {'Never': 'N', 'Always': 'A', 'Sometimes': 'S'}
def queries(sx, std, n, dom):
    m = sx.string('m', 1, n, dom)
    U = M[std]
    known = m in NUM[std]
    sx.check((m in U) == known, 'a marker of the table')
    sx.check(U.isValidMarker(m) == known, 'valid if it is in the table')
    if not known:
        for f in (U.isNewlineMarker, U.isInternalMarker, U.isNoteMarker, U.isDeprecatedMarker, U.isCompulsoryMarker, U.isNumberableMarker, U.isNestingMarker, U.isPrinted, U.getMarkerClosureType, U.getMarkerContentType):
            sx.check(not f(m), 'nothing holds for what is no marker')
        for f in (U.toRawMarker, U.toStandardMarker, U.markerOccursIn, U.getMarkerEnglishName, U.getMarkerDescription):
            o = sx.attempt(f, m); sx.check(not o.ok and isinstance(o.exc, KeyError), 'what is no marker is refused')
        return
    m = sx.concrete(m)
    r = NUM[std][m]; d = RAW[std][r]; numbered = m != r
    sx.observe('m', m)
    sx.check(bool(U.isNewlineMarker(m)) == (d['level'] == 'Newline'), 'a marker which starts a line')
    sx.check(bool(U.isInternalMarker(m)) == (d['level'] == 'Internal'), 'a marker inside a line')
    sx.check(bool(U.isNoteMarker(m)) == (d['level'] == 'Note'), 'a note marker')
    sx.check(bool(U.isDeprecatedMarker(m)) == (d['deprecated'] == 'Yes' and (numbered or d['numbered'] is None)), 'a deprecated marker')
    sx.check(bool(U.isCompulsoryMarker(m)) == (d['compulsory'] == 'Yes'), 'a compulsory marker')
    sx.check(bool(U.isNumberableMarker(m)) == (d['numbered'] is not None), 'a marker with numbers')
    sx.check(bool(U.isNestingMarker(m)) == (d['nests'] == 'Yes'), 'a marker which nests')
    sx.check(bool(U.isPrinted(m)) == (d['printed'] == 'Yes'), 'a marker which is printed')
    sx.check(U.getMarkerClosureType(m) == CLOSED[d['closed']], 'how it is closed')
    sx.check(U.getMarkerContentType(m) == CONTENT[d['hasContent']], 'whether it has content')
    sx.check(U.markerOccursIn(m) == d['occursIn'] and U.markerOccursIn(m) in U.getOccursInList(), 'where it occurs')
    sx.check(U.getMarkerEnglishName(m) == d['nameEnglish'] and U.getMarkerDescription(m) == d.get('description'), 'its name and description')
    sx.check(U.toRawMarker(m) == r, 'the marker without its number')
    sx.check(U.toStandardMarker(m) == (m if numbered or d['numbered'] is None else d['numbered'][0]), 'the marker with its number')

def want(std, ok, numbers):
    """Names of the markers which are ok; numbers: None the plain ones only, True numbered instead of plain, False both."""
    out = []
    for r in ORDER[std]:
        d = RAW[std][r]
        if not ok(d): continue
        if numbers is not True or d['numbered'] is None: out.append(r)
        if numbers is not None and d['numbered'] is not None: out += d['numbered']
    return out

def lists(sx, std):
    U = M[std]; nl = lambda d: d['level'] == 'Newline'
    k = sx.choice('k', ('Raw', 'Numbered', 'Combined', 'CanonicalText', 'Internal', 'Note', 'Occurs', 'All', 'Conversions'))
    same = lambda L, W, what: sx.check(len(L) == len(W) and sorted(L) == sorted(W), what)
    if k == 'Raw': same(U.getNewlineMarkersList('Raw'), want(std, nl, None), 'the newline markers')
    elif k == 'Numbered': same(U.getNewlineMarkersList('Numbered'), want(std, nl, True), 'the numbered newline markers')
    elif k == 'Combined': same(U.getNewlineMarkersList('Combined'), want(std, nl, False), 'all the newline markers')
    elif k == 'CanonicalText': same(U.getNewlineMarkersList('CanonicalText'), want(std, lambda d: nl(d) and d['occursIn'] == 'Canonical Text', True), 'the newline markers of canonical text')
    elif k == 'Internal': same(U.getInternalMarkersList(), want(std, lambda d: d['level'] == 'Internal', None), 'the internal markers')
    elif k == 'Note': same(U.getNoteMarkersList(), want(std, lambda d: d['level'] == 'Note', None), 'the note markers')
    elif k == 'Occurs': same(U.getOccursInList(), list({d['occursIn'] for d in RAW[std].values()}), 'the places')
    elif k == 'All':
        sx.check(len(U) == len(NUM[std]), 'as many markers as there are')
        W = want(std, lambda d: True, True)
        same([U[i] for i in range(len(W))], W, 'the markers by their number')
    else:
        D = DATA[std]
        sx.check(D['conversionDict'] == {r: d['numbered'][0] for r, d in RAW[std].items() if d['numbered']}, 'the standard forms')
        sx.check(D['backConversionDict'] == {x: r for x, r in NUM[std].items() if x != r}, 'the raw forms')
        for q, v in DATA[std].items(): sx.check(STORED[std].get(q) == v, ('what is loaded by default is what the XML file says', q))

def characters(sx, std):
    """The character markers in every form asked for."""
    bs, end, nest, num = sx.bool('backslash'), sx.bool('end'), sx.bool('nested'), sx.bool('numbers')
    L = M[std].getCharacterMarkersList(includeBackslash=bs, includeEndMarkers=end, includeNestedMarkers=nest, expandNumberableMarkers=num)
    where = ('Text', 'Canonical Text', 'Poetry', 'Table row', 'Introduction') + (('Numbering', 'Acrostic verse') if std == 3 else ())
    W = []
    for r in ORDER[std]:
        d = RAW[std][r]
        if d['level'] != 'Internal' or d['occursIn'] not in where: continue
        for x in [r] + ((d['numbered'] or []) if num else []):
            for p in ('', '+') if nest else ('',):
                for e in ('', '*') if end else ('',): W.append((BS if bs else '') + p + x + e)
    sx.check(sorted(L) == sorted(W), 'the character markers in all the forms asked for')

# -- The markers of a line

TEXT = 'ab .+*-12'
def markerList(sx, std, n, words, kinds, initial=True, few=False):
    """A line of n markers with text after each of them."""
    U = M[std]
    first = sx.bool('initial') if initial else False
    t = sx.string('t', 0, words, TEXT) if first else ''
    line = t; exp = []; ctx = []
    opened = [] # indexes of the entries which are open
    for i in range(n):
        ks = [k for k in kinds if (k == '+' and 0 < len(ctx) < 3) or (k == '-' and len(ctx) > 1) or (k == '*' and len(ctx) == 1) or (k == 'N') or (k == ' ' and len(ctx) == 0)]
        k = sx.choice('k%d' % i, ks)
        last = i == n - 1
        if k == 'N': m = ('p' if few else sx.choice('m%d' % i, ('p', 'q1', 'v', 's', 'c'))); mark, x = BS + m, ' '; ctx = []; sep = True
        elif k == ' ': m = ('add' if few else sx.choice('m%d' % i, ('add', 'nd', 'w'))); mark, x = BS + m, ' '; ctx = [m]; sep = True
        elif k == '+': new = [y for y in ('bk', 'nd', 'add') if y not in ctx]; m = new[0] if few else sx.choice('m%d' % i, new); mark, x = BS + '+' + m, '+'; ctx = ctx + [m]; sep = True
        elif k == '-': m = ctx[-1]; mark, x = BS + '+' + m + '*', '-'; ctx = ctx[:-1]; sep = False
        else: m = ctx[0]; mark, x = BS + m + '*', '*'; ctx = []; sep = False
        ix = len(line)
        if last and sep and sx.bool('bare'): # at the end of the line, without a space
            line += mark; full, tx = mark, ''
            if x == ' ': x = ''
        else:
            full = mark + (' ' if sep else '')
            tx = sx.string('t%d' % i, 0, words, TEXT); line += full + tx
        exp.append((m, ix, x, full, list(ctx), tx, k))
    inc = sx.bool('include') if initial else i % 2 == 0
    R = U.getMarkerListFromText(line, includeInitialText=inc, verifyMarkers=sx.bool('verify') if not few else True)
    sx.observe('n', len(R))
    off = 0
    if inc and len(t):
        off = 1
        sx.check(len(R) > 0 and R[0][0] is None and R[0][1] == 0 and sx.same(R[0][6], t), 'the text before the first marker')
    sx.check(len(R) == n + off, 'as many entries as markers')
    for i, (m, ix, x, full, cx, tx, k) in enumerate(exp):
        r = R[i + off]
        sx.check(r[0] == m, 'the markers in order')
        sx.check(r[1] == ix, 'where the marker starts')
        sx.check(r[2] == x, 'the kind of the marker')
        sx.check(sx.same(r[3], full), 'the marker as it is in the line')
        sx.check(list(r[4]) == cx, 'the markers open after it')
        sx.check(sx.same(r[6], tx), 'the text after the marker')
        if k in (' ', '+') and x != '':
            end = None
            for j in range(i + 1, n):
                if len(exp[j][4]) < len(cx): end = j; break
            sx.check(r[5] == (None if end is None else end + off), 'the index of the entry which closes it')
        else: sx.check(r[5] is None, 'only an opening marker is closed')

def markerNames(sx, std, n):
    """Any names of markers: found with their place and kind."""
    a = sx.string('a', 1, n, 'abq1z-'); b = sx.string('b', 1, n, 'abq1z-')
    form = sx.choice('form', (' ', '*', '+', '-')); t = sx.string('t', 0, 1, TEXT)
    mark = BS + ('+' if form in '+-' else '') + a + ('*' if form in '*-' else ' ')
    line = mark + t + BS + b
    R = M[std].getMarkerListFromText(line)
    sx.check(len(R) == 2, 'as many entries as markers')
    sx.check(sx.same(R[0][0], a) and sx.same(R[1][0], b), 'the names of the markers')
    sx.check(R[0][1] == 0 and R[1][1] == len(mark) + len(t), 'where the markers start')
    sx.check(R[0][2] == form and R[1][2] == '', 'the kinds of the markers')
    sx.check(sx.same(R[0][6], t) and sx.same(R[1][6], '') and sx.same(R[0][3], mark) and sx.same(R[1][3], BS + b), 'the text after the markers')

# -- Removing and replacing fields

def field(sx, tag, m, words, kinds):
    """A piece of a line: (text, what is left of it when the fields of the marker m are removed, the same without the closed ones only, its replacement)"""
    k = sx.choice(tag + 'k', kinds)
    t = sx.string(tag, 0, words, 'ab 1')
    o, c = BS + m + ' ', BS + m + '*'
    if k == 'text': return t, t, t
    if k == 'field': return o + t + c, '', '{' + t + '}'
    if k == 'other': return BS + m + 'x ' + t + BS + m + 'x*', BS + m + 'x ' + t + BS + m + 'x*', BS + m + 'x ' + t + BS + m + 'x*'
    if k == 'nested': return BS + '+' + m + ' ' + t + BS + '+' + m + '*', BS + '+' + m + ' ' + t + BS + '+' + m + '*', '{' + t + '}'
    if k == 'embedding': return o + t + BS + '+zz ' + t + BS + '+zz*' + c, '', '{' + t + BS + '+zz ' + t + BS + '+zz*}'
    raise ValueError(k)

def removed(sx, std, n, words, kinds, flags):
    m = sx.choice('m', ('f', 'add', 'q1'))
    line = ''; left = ''
    flag = sx.choice('flag', flags)
    for i in range(n):
        a, b, _ = field(sx, 't%d' % i, m, words, kinds)
        line += a; left += b
    sx.check(sx.same(MOD[std].removeUSFMCharacterField(m, line, closedFlag=flag), left), 'just the fields are removed')

def removedOpen(sx, std, words, embed=False):
    """Fields which are ended by the next marker or by the end of the line."""
    m = 'fr'; a, t, u, z = [sx.string(k, 0, words, 'ab 1') for k in ('a', 't', 'u', 'z')]
    flag = False if embed else sx.choice('flag', (None, False)); nxt = sx.choice('next', ('', BS + 'ft ', BS + 'f*', BS + 'fr '))
    inner = BS + '+nd ' + u + BS + '+nd*' if embed else ''
    line = a + BS + m + ' ' + t + inner + nxt + (z if nxt else '')
    left = a + (nxt + z if nxt and nxt != BS + 'fr ' else '')
    sx.check(sx.same(MOD[std].removeUSFMCharacterField(m, line, closedFlag=flag), left), 'removed up to the next marker')
    if nxt != BS + 'fr ': sx.check(sx.same(MOD[std].removeUSFMCharacterField(m, line, closedFlag=True), line), 'without its end nothing is removed')

def replaced(sx, std, n, words, kinds):
    m = sx.choice('m', ('add', 'nd')); line = ''; exp = ''
    for i in range(n):
        a, _, b = field(sx, 't%d' % i, m, words, kinds)
        line += a; exp += b
    sx.check(sx.same(MOD[std].replaceUSFMCharacterFields((((m, 'k'), '{', '}'),), line), exp), 'the markers are replaced and nothing else')
    both = line + BS + 'wj ' + exp + BS + 'wj*'
    sx.check(sx.same(MOD[std].replaceUSFMCharacterFields(((('k', m), '{', '}'), (('wj',), '<', '>')), both), exp + '<' + exp + '>'), 'all the replacements are made')

def cases(tier):
    q = tier == 'quick'; L = []
    W = 1 if q else 2
    for s in (3, 2):
        L += [('queries %d' % s, queries, dict(std=s, n=4 if q else 5, dom=[(0x21, 0x7e)])),
              ('lists %d' % s, lists, dict(std=s)), ('characters %d' % s, characters, dict(std=s)),
              ('marker names %d' % s, markerNames, dict(std=s, n=2 if q else 3)),
              ('marker list %d' % s, markerList, dict(std=s, n=4, words=0, kinds=(' ', '+', '-', '*', 'N'), few=True)),
              ('marker list, texts %d' % s, markerList, dict(std=s, n=2, words=1, kinds=(' ', '+', '-', '*', 'N'))),
              ('closed fields removed %d' % s, removed, dict(std=s, n=2 if q else 3, words=W, kinds=('text', 'field', 'other', 'nested'), flags=(True, None))),
              ('embedding fields removed %d' % s, removed, dict(std=s, n=2, words=W, kinds=('text', 'field', 'embedding'), flags=(True,))),
              ('open fields removed %d' % s, removedOpen, dict(std=s, words=W)),
              ('open fields with others inside %d' % s, removedOpen, dict(std=s, words=W, embed=True)),
              ('replaced %d' % s, replaced, dict(std=s, n=2, words=W, kinds=('text', 'field', 'other', 'nested', 'embedding')))]
    if not q:
        for s in (3, 2):
            L += [('marker list 6, %d' % s, markerList, dict(std=s, n=7, words=0, kinds=(' ', '+', '-', '*', 'N'), few=True)),
                  ('marker list, texts 3, %d' % s, markerList, dict(std=s, n=3, words=1, kinds=(' ', '+', '-', '*', 'N'), few=True)),
                  ('closed fields removed 4, %d' % s, removed, dict(std=s, n=4, words=1, kinds=('text', 'field', 'other', 'nested'), flags=(True, None))),
                  ('replaced 3, %d' % s, replaced, dict(std=s, n=3, words=1, kinds=('text', 'field', 'other', 'nested', 'embedding')))]
    return L
