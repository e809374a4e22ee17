"""P01: the book code tables answer consistently in every direction, for every string and every number."""
from harness import common
PROPERTY = 'P01'
ASSUMPTIONS = ['the tables are those built by the converter from DataFiles/BibleBooksCodes.xml']
OUTSIDE = 'abbreviation strings longer than the stated lengths or with characters outside printable ASCII'
ALNUM = [(0x20, 0x7e)]
UPNUM = [(0x20, 0x7e)]

def setup():
    global bbc, ALL
    bbc = common.bookCodes()
    ALL = tuple(bbc.getAllReferenceAbbreviations())

def asList(x): return x if isinstance(x, list) else [x]

# (getter BBB->code, lookup code->BBB)
def pairs():
    return [
        ('USFM', bbc.getUSFMAbbreviation, bbc.getBBBFromUSFMAbbreviation),
        ('OSIS', bbc.getOSISAbbreviation, lambda s: bbc.getBBBFromOSISAbbreviation(s, strict=True)),
        ('short', bbc.getShortAbbreviation, lambda s: bbc.getBBBFromShortAbbreviation(s, strict=True)),
        ('Unbound', bbc.getUnboundBibleCode, bbc.getBBBFromUnboundBibleCode),
        ('Drupal', bbc.getDrupalBibleAbbreviation, bbc.getBBBFromDrupalBibleCode),
    ]

def validBBB(sx):
    """Any 3-character string: validity, numbers, containment and accessors agree."""
    s = sx.string('s', 3, 3, UPNUM)
    valid = bbc.isValidBBB(s)
    sx.check(valid == (s in ALL), 'isValidBBB iff listed')
    sx.check((s in bbc) == valid, 'contains iff valid')
    if not valid:
        for f in (bbc.getReferenceNumber, bbc.getUSFMAbbreviation, bbc.getOSISAbbreviation, bbc.isSingleChapterBook, bbc.getExpectedChaptersList):
            o = sx.attempt(f, s)
            sx.check(not o.ok and isinstance(o.exc, KeyError), 'accessors refuse an unknown code')
        return
    n = bbc.getReferenceNumber(s)
    sx.observe('n', n)
    sx.check(1 <= n <= 999, 'reference number in 1..999')
    sx.check(bbc.getBBBFromReferenceNumber(n) == s, 'reference number leads back')
    sx.check(bbc.getBBBFromReferenceNumber(str(n)) == s, 'reference number string leads back')
    BBB = sx.concrete(s)
    for name, get, look in pairs():
        code = get(BBB)
        if code is None: continue
        for variant in (code, code.upper(), code.lower()):
            o = sx.attempt(look, variant)
            if name == 'short' and not o.ok:
                # short codes that are spelt with a space are only found by the forgiving lookup
                o = sx.attempt(bbc.getBBBFromShortAbbreviation, variant)
            sx.check(o.ok, ('own abbreviation is known', name))
            back = asList(o.value)
            sx.check(len(back) > 0 and all(b in ALL for b in back), ('lookup gives real books', name))
            sx.check(all(get(b) is not None and get(b).upper() == code.upper() for b in back), ('lookup gives a book with that abbreviation', name))
            if name != 'USFM': sx.check(BBB in back, ('lookup includes the book itself', name))
            else: sx.check(isinstance(o.value, str), 'USFM lookup is a single code')
    ecl = bbc.getExpectedChaptersList(BBB)
    sx.check(bbc.getMaxChapters(BBB) == (max([int(x) for x in ecl]) if ecl else -1), 'max chapters is the largest expected')
    sx.check(bbc.isSingleChapterBook(BBB) == (ecl == ['1']), 'single chapter iff exactly one chapter expected')
    sx.check((BBB in bbc.getSingleChapterBooksList()) == bbc.isSingleChapterBook(BBB), 'single chapter list')
    sx.check(bbc.isChapterVerseBook(BBB) == (len(ecl) > 0), 'chapter/verse book iff chapters expected')
    sx.check(bbc.getBBBFromText(BBB) == BBB and bbc.getBBBFromText(BBB.lower()) == BBB, 'a code read as text is that book')
    sx.check(not (bbc.isOldTestament_NR(BBB) and bbc.isNewTestament_NR(BBB)), 'not in both testaments')
    sx.check((1 <= n <= 39) == bbc.isOldTestament_NR(BBB) and (40 <= n <= 66) == bbc.isNewTestament_NR(BBB), 'testament by number')
    alts = bbc.getPossibleAlternativeBooksCodes(BBB)
    if alts is not None: sx.check(all(a.strip() in ALL for a in (alts.split(',') if isinstance(alts, str) else alts)), 'alternatives are real books')

def numbers(sx):
    n = sx.int('n', -5, 1200)
    o = sx.attempt(bbc.getBBBFromReferenceNumber, n)
    if o.ok:
        sx.check(1 <= n, 'positive'); sx.check(n <= 999, 'at most 999')
        sx.check(bbc.getReferenceNumber(o.value) == n, 'number of the book found is the number asked for')
        sx.check(n <= 66 or True, 'reached')
    else:
        sx.check(isinstance(o.exc, (ValueError, KeyError)), 'documented refusal')
        sx.check(sx.either(n < 1, n > 66), 'the 66 are always there')
        sx.check(sx.no(sx.both(sx.either(n < 1, n > 999), isinstance(o.exc, KeyError))), 'out of range is ValueError')

def lookups(sx, n, name):
    """Any string: every lookup either refuses it or names a real book that carries this abbreviation; case never matters."""
    s = sx.string('s', n, n, ALNUM)
    look = {p[0]: p[2] for p in pairs()}[name]; get = {p[0]: p[1] for p in pairs()}[name]
    o = sx.attempt(look, s)
    sx.observe('ok', o.ok)
    u = sx.attempt(look, s.upper())
    sx.check(u.ok == o.ok, 'case does not matter')
    if not o.ok:
        sx.check(isinstance(o.exc, KeyError), 'refused with KeyError')
        return
    sx.observe('r', o.value)
    sx.check(o.value == u.value, 'case does not matter for the result')
    for b in asList(o.value):
        sx.check(b in ALL, 'a real book')
        sx.check(get(b).upper() == s.upper(), 'which has that abbreviation')

def loose(sx, n, name):
    """The forgiving lookups only accept what is an abbreviation of that book in one of the documented tables."""
    s = sx.string('s', n, n, ALNUM)
    norm = lambda x: '' if x is None else x.upper().replace(' ', '')
    if name == 'OSIS':
        look, strict = bbc.getBBBFromOSISAbbreviation, lambda s: bbc.getBBBFromOSISAbbreviation(s, strict=True)
        gets = [bbc.getOSISAbbreviation, bbc.getSwordAbbreviation]
    else:
        look, strict = bbc.getBBBFromShortAbbreviation, lambda s: bbc.getBBBFromShortAbbreviation(s, strict=True)
        gets = [bbc.getShortAbbreviation, bbc.getSBLAbbreviation, bbc.getNETBibleAbbreviation]
    o = sx.attempt(look, s); t = sx.attempt(strict, s)
    if t.ok: sx.check(o.ok and o.value == t.value, 'a strict match is also found by the forgiving lookup')
    if not o.ok: sx.check(isinstance(o.exc, KeyError), 'refused with KeyError'); return
    for b in asList(o.value):
        sx.check(b in ALL, 'a real book')
        sx.check(sx.either(*[norm(g(b)) == norm(s) for g in gets]), 'which has that abbreviation')

def fromText(sx, n):
    s = sx.string('s', n, n, 'ABDEGIMNOPSTXabdegimnopstx12 ')
    r = bbc.getBBBFromText(s)
    sx.observe('r', r)
    sx.check(r is None or r in ALL, 'nothing or a real book')
    sx.check(r == bbc.getBBBFromText(s.upper()), 'case does not matter')
    if r is None: sx.check(sx.no(s.upper() in ALL), 'book codes are always recognised')
    else: sx.check(sx.either(sx.no(s.upper() in ALL), s.upper() == r), 'a book code stands for itself')

def sequence(sx, n):
    """Any list of distinct books comes back as the same books in print order; entries keep their own tuples."""
    full = bbc.getSequenceList()
    books = [sx.oneof('b%d' % i, POOL) for i in range(n)]
    for i in range(n):
        for j in range(i): sx.assume(books[i] != books[j])
    tup = sx.bool('tuples')
    lst = [(b, 't%d' % i) for i, b in enumerate(books)] if tup else list(books)
    r = bbc.getSequenceList(lst)
    sx.check(len(r) == n, 'nothing lost')
    names = [x[0] for x in r] if tup else list(r)
    idx = [full.index(x) for x in names]
    sx.observe('idx', idx)
    sx.check(all(idx[i] < idx[i+1] for i in range(n-1)), 'in print order')
    for x in r: sx.check(x in lst, 'the entries themselves')
    sx.check(sorted(full) == sorted(ALL), 'the default sequence covers every book exactly once')
POOL = ['GEN', 'MAL', 'MAT', 'REV', 'TOB', 'FRT', 'GLS', 'XXA']

def psalmTitles(sx):
    c = sx.int('c', 1, 150)
    b = sx.oneof('b', ['PSA', 'GEN', 'PS2', 'PRO'])
    r = bbc.hasPsalmTitle(b, str(c))
    sx.observe('r', r)
    untitled = (1, 2, 10, 33, 43, 71, 91, 93, 94, 95, 96, 97, 99, 104, 105, 106, 107, 111, 112, 113, 114, 115, 116, 117, 118, 119, 135, 136, 137, 146, 147, 148, 149, 150)
    sx.check(sx.same(r, sx.both(b == 'PSA', sx.no(c in untitled))), 'the 34 untitled psalms of the Hebrew text')

def triples(sx):
    """The code/number listings agree with the single accessors."""
    k = sx.choice('which', ['USFM', 'USX', 'Bibledit'])
    f, num = {'USFM': (bbc.getAllUSFMBooksCodeNumberTriples, bbc.getUSFMNumStr), 'USX': (bbc.getAllUSXBooksCodeNumberTriples, bbc.getUSXNumStr),
              'Bibledit': (bbc.getAllBibleditBooksCodeNumberTriples, bbc.getBibleditNumStr)}[k]
    l = f()
    i = sx.int('i', 0, len(l) - 1)
    a, n, b = l[i]
    sx.check(bbc.getUSFMAbbreviation(b) == a and num(b) == n, 'listing agrees with accessors')
    i = sx.concrete(i)
    sx.check(all((a2 != a and b2 != b) or k2 == i for k2, (a2, n2, b2) in enumerate(l)), 'no code twice')
    want = {bbc.getUSFMAbbreviation(b2) for b2 in bbc if bbc.getUSFMAbbreviation(b2) is not None and num(b2) is not None}
    sx.check({a2 for a2, n2, b2 in l} == want, 'every code with a number')

def cases(tier):
    L = [('any 3-character code', validBBB, {}), ('any reference number', numbers, {}), ('listings', triples, {}), ('psalm titles', psalmTitles, {}),
         ('sequence of books', sequence, {'n': 3 if tier == 'quick' else 4})]
    for name in ('USFM', 'OSIS', 'short', 'Unbound', 'Drupal'):
        for n in ((3,) if name == 'USFM' else (2, 3) if name in ('Unbound', 'Drupal') else (2, 3, 4, 5) if tier == 'quick' else (1, 2, 3, 4, 5, 6, 7)):
            L.append(('%s lookup, %d characters' % (name, n), lookups, {'n': n, 'name': name}))
    for name in ('OSIS', 'short'):
        for n in ((2, 3, 4) if tier == 'quick' else (1, 2, 3, 4, 5, 6, 7)): L.append(('forgiving %s lookup, %d characters' % (name, n), loose, {'n': n, 'name': name}))
    for n in ((2, 3, 4) if tier == 'quick' else (1, 2, 3, 4, 5)): L.append(('getBBBFromText, %d characters' % n, fromText, {'n': n}))
    return L
