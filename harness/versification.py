"""P04: versification systems agree with themselves about chapters, verses and valid references."""
from harness import common
PROPERTY = 'P04'
ASSUMPTIONS = ['the shipped versification tables']
OUTSIDE = 'chapter and verse strings that are not decimal numbers'
ABC = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789'
SYS = ['KJV', 'RSV52', 'NIV84', 'GNT92', 'Original', 'Cebuano_BUGV']
ORG = 'GENERIC-KJV-66'

def setup():
    global V, bvs, bbc, ORGS, SimpleVerseKey
    G = common.globalsModule()
    bbc = common.bookCodes()
    from BibleOrgSys.Reference.BibleVersificationSystems import BibleVersificationSystems, BibleVersificationSystem
    from BibleOrgSys.Reference.BibleOrganisationalSystems import BibleOrganisationalSystem
    from BibleOrgSys.Reference.VerseReferences import SimpleVerseKey
    from types import SimpleNamespace
    G.commandLineArguments = SimpleNamespace(export=False)
    bvs = BibleVersificationSystems().loadData()
    V = {n: BibleVersificationSystem(n) for n in SYS}
    ORGS = BibleOrganisationalSystem(ORG)

def books(sx, n):
    """Every book of the system: chapters, verse counts and totals agree."""
    o = V[n]
    L = list(o)
    sx.check(len(o) == len(L) == o.numAvailableBooks(), 'number of books')
    i = sx.int('i', 0, len(L) - 1)
    BBB = sx.concrete(L[i])
    sx.check(BBB in o and bbc.isValidBBB(BBB), 'a real book')
    N = o.getNumChapters(BBB); lst = o.getNumVersesList(BBB)
    sx.check(all(isinstance(x, int) and x >= 0 for x in lst), 'verse counts are numbers')
    sx.check(sum(lst) == o.getTotalNumVerses(BBB), 'total is the sum over chapters')
    sx.check(o.isSingleChapterBook(BBB) == (N == 1), 'single chapter iff one chapter')
    if not regular(o, BBB): return
    sx.check(len(lst) == N, 'one count per chapter')
    c = sx.int('c', -1, 160)
    nv = o.getNumVerses(BBB, str(c))
    sx.observe('nv', nv)
    if c >= 1 and c <= N:
        sx.check(nv == lst[c-1], 'count of the chapter')
        sx.check(o.getNumVerses(BBB, c) == nv, 'chapter as a number')
    else: sx.check(nv == 0, 'no verses in a chapter which is not there')

def regular(o, BBB):
    """books whose chapters are numbered 1..n in the table (all but a few of the apocrypha)"""
    return BBB not in ('PAZ', 'MAN', 'EZ6', 'LBA', 'LES', 'CH1', 'CH2', 'ISA', 'SIR')

def reference(sx, n, BBB, org):
    o = V[n] if not org else ORGS
    c = sx.int('c', -1, 160)
    blank = sx.bool('blank')
    v = sx.int('v', 0, 205)
    s = sx.oneof('s', ['', 'a', 'b', 'z'])
    ext = sx.bool('ext')
    ref = (BBB, str(c), '' if blank else str(v), s)
    r = o.isValidBCVRef(ref, 'text', extended=ext)
    sx.observe('r', r)
    if org and not blank: sx.check(sx.same(o.isValidBCVRef(SimpleVerseKey(*ref), 'text', extended=ext), r), 'a verse key is valid when its reference is')
    N = o.getNumChapters(BBB)
    if c >= 1 and c <= N:
        if blank: want = True
        elif ext and v == 0: want = True
        else:
            nv = o.getNumVerses(BBB, str(c))
            om = (o.getOmittedVerseList(BBB) or [])
            want = sx.both(v >= 1, v <= nv, sx.no(sx.either(*[sx.both(c == int(a), v == int(b)) for a, b in om])))
        sx.check(sx.same(r, want), 'valid iff within the chapter and not omitted')
        if not blank: sx.check(sx.same(o.isOmittedVerse(ref), sx.either(*[sx.both(c == int(a), v == int(b)) for a, b in (o.getOmittedVerseList(BBB) or [])])), 'omitted iff listed')
    elif ext and c == -1: sx.check(sx.same(r, True if blank else sx.either(v <= 199)), 'introduction verses')
    elif c == 0 and ext: pass
    else: sx.check(not r, 'no such chapter')

def codes(sx, n):
    o = V[n]
    s = sx.string('s', 3, 3, ABC)
    has = s in o
    sx.check(sx.same(has, sx.either(*[s == b for b in o])), 'contained iff listed')
    q = sx.attempt(o.getNumChapters, s)
    if not bbc.isValidBBB(s): sx.check(not q.ok and isinstance(q.exc, KeyError), 'not a book')
    else:
        sx.check(q.ok, 'a real book is never refused')
        sx.check((q.value is not None) == has, 'chapters known iff in the system')
    sx.check(sx.no(sx.both(sx.no(has), o.isValidBCVRef((s, '1', '1', ''), 'x'))), 'no references into other books')

FACTS = [('GEN', 50, 31), ('EXO', 40, 22), ('PSA', 150, 6), ('MAL', 4, 14), ('MAT', 28, 25), ('OBA', 1, 21), ('REV', 22, 20), ('EST', 10, 22), ('JHN', 21, 51)]
def kjv(sx):
    """The King James numbering everyone knows."""
    o = V['KJV']
    i = sx.int('i', 0, len(FACTS) - 1)
    BBB, N, first = FACTS[sx.concrete(i)]
    sx.check(o.getNumChapters(BBB) == N and o.getNumVerses(BBB, '1') == first, 'chapters and verses')
    books = [bbc.getBBBFromReferenceNumber(k) for k in range(1, 67)]
    sx.check(sum(o.getNumChapters(b) for b in books) == 1189 and sum(o.getTotalNumVerses(b) for b in books) == 31102, '1189 chapters and 31102 verses')

def matching(sx):
    """A scheme is matched by exactly the systems that have all its chapters with the same verse counts."""
    scheme = {}
    for B, cmax, vs in (('RUT', 4, ['22', '23', '18']), ('TI3', 1, ['15', '14'])):
        pass
    c = sx.int('c', 1, 5); v = sx.int('v', 10, 26); c2 = sx.int('c2', 1, 1); v2 = sx.int('v2', 13, 16)
    asList = sx.bool('asList')
    scheme['RUT'] = [(str(c), str(v))] if asList else {str(c): str(v)}
    two = sx.bool('two')
    if two: scheme['JN3'] = [('1', str(v2))] if asList else {'1': str(v2)}
    r = bvs.checkVersificationSystem('test', scheme)
    sx.observe('r', r)
    want = 0
    for n in bvs.getAvailableVersificationSystemNames():
        CV = bvs.getVersificationSystem(n)['CV']
        ok = 'RUT' in CV and str(c) in CV['RUT'] and CV['RUT'][str(c)] == str(v)
        if two: ok = ok and 'JN3' in CV and CV['JN3']['1'] == str(v2)
        if ok: want += 1
    sx.check(r == want, 'number of systems that agree with the scheme')

def cases(tier):
    q = tier == 'quick'
    L = [('King James facts', kjv, {}), ('matching a scheme', matching, {})]
    for n in SYS[:3 if q else 6]: L.append(('books of ' + n, books, {'n': n}))
    for n in SYS[:2 if q else 6]: L.append(('codes in ' + n, codes, {'n': n}))
    for n, B in (('KJV', 'JNA'), ('RSV52', 'MRK'), ('NIV84', 'ACT'), ('GNT92', 'DAN'), ('Original', 'JOL')) + (() if q else (('KJV', 'PSA'), ('KJV', 'GEN'), ('Original', 'MAL'), ('Cebuano_BUGV', 'MAT'), ('Cebuano_BUGV', 'LUK'))):
        L.append(('references in %s %s' % (n, B), reference, {'n': n, 'BBB': B, 'org': False}))
    L.append(('references through the organisational system', reference, {'n': 'KJV', 'BBB': 'MIC', 'org': True}))
    return L
