"""P11: book and division names are resolved to the right book."""
from harness import common
PROPERTY = 'P11'
ASSUMPTIONS = ['letters a/b in either case for the symbolic names (only equality and case matter to the code)']
OUTSIDE = 'more names or longer names than stated; the same name given for two books; what short forms shared with division names mean'
BKS = ('GEN', 'EXO', 'LEV')

def setup():
    global BN, SYS, bbc, DATA, STORED
    common.globalsModule()
    bbc = common.bookCodes()
    from BibleOrgSys.Reference import BibleBooksNames as BN
    from BibleOrgSys.Reference.Converters.BibleBooksNamesConverter import BibleBooksNamesConverter
    c = BibleBooksNamesConverter(); c.loadSystems()
    DATA = c.importDataToPython()[0]
    bns = BN.BibleBooksNamesSystems().loadData()
    STORED = bns._BibleBooksNamesSystems__DataDicts # what is loaded by default
    bns._BibleBooksNamesSystems__DataDicts = DATA
    SYS = {}

def system(name, books):
    k = (name, books)
    if k not in SYS:
        have = [b for b in DATA[name][2] if bbc.isValidBBB(b)]
        if books == 'NT': have = [b for b in have if 'NT' in str(DATA[name][0].get('NT', {}).get('includedBooks')) or b in DATA[name][0]['NT']['includedBooks']]
        SYS[k] = (BN.BibleBooksNamesSystem(name, have), have)
    return SYS[k]

# -- Any names

def make(sx, tag, shape):
    """x a letter, d a letter or digit, anything else itself"""
    s = ''
    for i, ch in enumerate(shape):
        s += sx.string('%s%d' % (tag, i), 1, 1, 'abAB') if ch == 'x' else sx.string('%s%d' % (tag, i), 1, 1, 'aB2') if ch == 'd' else ch
    return s

def shortForms(f, some):
    """The beginnings of the upper case name f: as they are, and with spaces removed (all, or also some, of them)."""
    out = []
    for n in range(1, len(f) + 1):
        p = f[:n]
        if p[n-1:] == ' ': continue
        pos = [i for i in range(n) if p[i] == ' ']
        if not some:
            sets = [[]] + ([pos] if pos else [])
        else:
            sets = [[q for j, q in enumerate(pos) if m >> j & 1] for m in range(1 << len(pos))]
        for rem in sets:
            out.append((''.join([p[i] for i in range(n) if i not in rem]), not rem))
    return out

def member(sx, k, L): return sx.either(*[k == x for x in L if len(x) == len(k)]) if L else False

def expand(sx, books, divs, leaders):
    """Every name given is found; every shortened form which is unambiguous is found; nothing else is."""
    names = {b: [make(sx, 'n%d_%d_' % (i, j), shape) for j, shape in enumerate(shapes)] for i, (b, shapes) in enumerate(zip(BKS, books))}
    dnames = {d: [make(sx, 'd%d_%d_' % (i, j), shape) for j, shape in enumerate(shapes)] for i, (d, shapes) in enumerate(zip(('OT', 'NT'), divs))}
    allNames = [(('B', b), n) for b in names for n in names[b]] + [(('D', d), n) for d in dnames for n in dnames[d]]
    for i in range(len(allNames)):
        for j in range(i): sx.assume(sx.no(allNames[i][1].upper() == allNames[j][1].upper())) # all names are different
    bookDict = {b: {'defaultName': names[b][0], 'defaultAbbreviation': names[b][-1], 'inputFields': list(names[b])} for b in names}
    divDict = {d: {'includedBooks': list(names), 'defaultName': dnames[d][0], 'defaultAbbreviation': dnames[d][0], 'inputFields': list(dnames[d])} for d in dnames}
    DN, R = BN.expandBibleNamesInputs('test', divDict, leaders, bookDict, list(names))
    full = {}
    for owner, n in allNames:
        u = n.upper(); F = full.setdefault(owner, []); F.append(u)
        for l in leaders:
            if u.startswith(l.upper()):
                for r in leaders[l]: F.append(r.upper() + u[len(l):])
    some = {o: [x[0] for f in full[o] for x in shortForms(f, True)] for o in full}
    for kind, T in (('B', R), ('D', DN)):
        mine = [o for o in full if o[0] == kind]
        given = {o: [n.upper() for w, n in allNames if w == o] for o in mine}
        last = None
        for k, v in T.items():
            o = (kind, v)
            sx.check(o in full, 'every name leads to one of the books')
            sx.check(last is None or len(k) <= last, 'longest names first'); last = len(k)
            sx.check(sx.either(member(sx, k, given[o]), member(sx, k, some[o])), 'every name found is a form of a name of that book')
            for p in mine:
                if p != o: sx.check(sx.either(member(sx, k, given[o]), sx.no(sx.either(member(sx, k, some[p]), member(sx, k, given[p])))), 'no name found could also mean another book')
            sx.check(sx.either(member(sx, k, given[o]), sx.no(k.isdigit())), 'a number alone is no name')
        for o in mine:
            for g in given[o]:
                sx.check(T.get(g) == o[1], 'every name given is found')
            for f in full[o]:
                for s, plain in shortForms(f, False):
                    if plain and s.isdigit(): continue
                    if sx.either(*[member(sx, s, some[p]) for p in full if p != o]): continue
                    sx.check(T.get(s) == o[1], 'every unambiguous short form is found')
    sx.observe('n', len(R))

# -- The shipped systems

def shipped(sx, name, books, both):
    """Any name of any book of a shipped system, in any case."""
    S, have = system(name, books)
    table = [(f, b) for b in have for f in DATA[name][2][b]['inputFields']]
    owners = {}
    for b in have:
        for f in DATA[name][2][b]['inputFields']: owners.setdefault(f.upper(), set()).add(b)
    i = sx.int('i', 0, len(table) - 1)
    text = table[i][0]
    BBB = table[i][1]
    amb = sx.either(*[text.upper() == f for f in owners if len(owners[f]) > 1])
    r = S.getBBBFromText(text.upper() if (sx.bool('up') if both else i % 2 == 0) else text.lower())
    sx.check(sx.either(amb, sx.same(r, BBB)), 'the name leads to its book')

def accessors(sx, name, books):
    S, have = system(name, books)
    i = sx.int('i', 0, len(have) - 1)
    b = have[i]
    n, a = S.getBookName(b), S.getBookAbbreviation(b)
    given = {o: [f.upper() for f in DATA[name][2][o]['inputFields']] for o in have}
    for t in (n, a):
        if sum(t.upper() in given[o] for o in have) == 1: # (some are given to several books)
            sx.check(S.getBBBFromText(t) == b, 'the default name and abbreviation lead to their book')
    sx.check(not any(o != b and S.getBookName(o) == n for o in have), 'two books with the same name')

def stored(sx, name):
    """The tables which are loaded by default say what the XML files say."""
    D, S = DATA[name], STORED.get(name)
    sx.check(S is not None and list(S[0]) == list(D[0]) and list(S[2]) == list(D[2]), 'the same divisions and books')
    rows = [(2, b) for b in D[2]] + [(0, d) for d in D[0]]
    t, k = rows[sx.int('i', 0, len(rows) - 1)]
    sx.check(S[t][k] == D[t][k], 'the same names for a book or division')
    sx.check(S[1] == D[1], 'the same leaders')

def divisions(sx, name, books):
    S, have = system(name, books)
    D = DATA[name][0]
    ds = [d for d in D if any(b in have for b in D[d]['includedBooks'])]
    table = [(f, d) for d in ds for f in D[d]['inputFields'] if not any(f.upper() == g.upper() for e in ds if e != d for g in D[e]['inputFields'])]
    i = sx.int('i', 0, len(table) - 1)
    f, d = table[i]
    sx.check(S.getDivisionAbbreviation(f) == d, 'the name leads to its division')
    sx.check(S.getDivisionAbbreviation(f.upper()) == d, 'in upper case')
    L = S.getDivisionBooklist(d)
    for e in ds:
        if d == e: sx.check(list(L) == list(D[e]['includedBooks']), 'the books of the division')
    if f.upper() not in [x.upper() for x in D]: sx.check(S.getDivisionBooklist(f) == L, 'the books by the name of the division')

def cases(tier):
    L12 = {'1 ': ['I ', 'Ab '], '2 ': ['II ']}
    NONE = {'9 ': ['Z ']}
    out = []
    def e(name, books, divs, leaders=NONE): out.append(('expand %s' % name, expand, dict(books=books, divs=divs, leaders=leaders)))
    e('two', (['xxx'], ['xxx']), (['Law'],))
    e('three', (['xx'], ['xx'], ['xx']), (['Law'],))
    e('two names each', (['xxx', 'xx'], ['xxx']), (['Law'],))
    e('spaces', (['xx xx'], ['xxx']), (['Law'],))
    e('same form twice', (['xxx', 'x xx'], ['xx']), (['Law'],))
    e('spaces after', (['xxx'], ['x x']), (['Law'],))
    e('two spaces', (['x x x'], ['xxx']), (['Law'],))
    e('leader', (['1 xx'], ['2 xx']), (['Law'],), L12)
    e('leader and other', (['1 xx'], ['xxx']), (['Law'],), L12)
    e('letter leader', (['Ab xx'], ['xx']), (['Law'],), {'Ab ': ['B ', 'Aa ']})
    e('digits', (['ddd'], ['ddd']), (['Law'],))
    e('division', (['xxx'],), (['xxx'],))
    e('divisions', (['Gen'],), (['xx'], ['x x']))
    if tier == 'thorough':
        e('T two longer', (['xxxx'], ['xxxx']), (['Law'],))
        e('T two names each', (['xxx', 'xx'], ['xxx', 'xx']), (['Law'],))
        e('T leaders', (['1 xxx'], ['2 xxx'], ['xxx']), (['Law'],), L12)
        e('T leader division', (['1 xx'], ['xx']), (['1 xx'], ['xx']), L12)
        e('T spaces', (['xx xx'], ['xx x']), (['xx'],))
        e('T three', (['xxx'], ['xxx'], ['xxx']), (['xx'],))
    names = list(DATA)
    for n in sorted(names):
        out.append(('shipped %s' % n, shipped, dict(name=n, books='all', both=tier == 'thorough')))
        out.append(('stored %s' % n, stored, dict(name=n)))
        out.append(('accessors %s' % n, accessors, dict(name=n, books='all')))
        out.append(('divisions %s' % n, divisions, dict(name=n, books='all')))
        out.append(('divisions NT %s' % n, divisions, dict(name=n, books='NT')))
    return out
