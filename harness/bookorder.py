"""P03: book order systems."""
from harness import common
PROPERTY = 'P03'
ASSUMPTIONS = ['the shipped book order tables']
OUTSIDE = 'lists of more than the stated number of books when matching against the systems'
ABC = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789'

def setup():
    global SYSTEMS, NAMES, bos, OSYS
    G = common.globalsModule()
    common.bookCodes()
    from types import SimpleNamespace
    G.commandLineArguments = SimpleNamespace(export=False)
    from BibleOrgSys.Reference.BibleBookOrders import BibleBookOrderSystems, BibleBookOrderSystem
    bos = BibleBookOrderSystems().loadData()
    NAMES = list(bos.getAvailableBookOrderSystemNames())
    SYSTEMS = {n: BibleBookOrderSystem(n) for n in NAMES}
    from BibleOrgSys.Reference.BibleOrganisationalSystems import BibleOrganisationalSystem
    OSYS = {n: BibleOrganisationalSystem(n) for n in ('GENERIC-KJV-66', 'NKJV-NT', 'RV-DC', 'GENERIC-KJV-80')}

def oneSystem(sx, n):
    """Any 3-character code against one system."""
    o = SYSTEMS[n]
    s = sx.string('s', 3, 3, ABC)
    L = o.getBookOrderList()
    sx.check(len(o) == len(L) and o.numBooks() == len(L) and bos.numBooks(n) == len(L), 'number of books')
    has = o.containsBook(s)
    sx.observe('has', has)
    sx.check((s in o) == has, 'contains')
    sx.check(sx.same(bos.containsBook(n, s), has), 'same answer from the collection')
    sx.check(sx.same(has, sx.either(*[s == b for b in L])), 'contained iff listed')
    if not has:
        for f in (o.getBookOrderPosition, o.getPreviousBookCode, o.getNextBookCode):
            q = sx.attempt(f, s)
            sx.check(not q.ok and isinstance(q.exc, KeyError), 'unknown book refused')
        return
    p = o.getBookOrderPosition(s)
    sx.check(sx.both(p >= 1, p <= len(L)), 'position in 1..n')
    sx.check(L[p-1] == s, 'position is the place in the list')
    sx.check(o.getBookAtOrderPosition(p) == s, 'position leads back to the book')
    nx = o.getNextBookCode(s); pv = o.getPreviousBookCode(s)
    sx.check((nx is None) == (p == len(L)), 'only the last book has no next')
    sx.check((pv is None) == (p == 1), 'only the first book has no previous')
    if nx is not None:
        sx.check(nx == L[p] and o.getPreviousBookCode(nx) == s, 'next then previous')
        sx.check(o.correctlyOrdered(s, nx) and not o.correctlyOrdered(nx, s), 'next comes after')
    if pv is not None: sx.check(o.getNextBookCode(pv) == s, 'previous then next')
    sx.check(not o.correctlyOrdered(s, s), 'not before itself')

def positions(sx, n):
    o = SYSTEMS[n]; N = len(o)
    k = sx.int('k', -3, N + 5)
    q = sx.attempt(o.getBookAtOrderPosition, k)
    sx.check(sx.same(q.ok, sx.both(k >= 1, k <= N)), 'positions are 1..n')
    if q.ok: sx.check(o.getBookOrderPosition(q.value) == k, 'book at a position has that position')

def pairs(sx, n):
    """Ordering of any two books of the system is that of the list."""
    o = SYSTEMS[n]; L = o.getBookOrderList()
    i = sx.int('i', 0, len(L) - 1); j = sx.int('j', 0, len(L) - 1)
    sx.check(sx.same(o.correctlyOrdered(L[i], L[j]), i < j), 'order of the list')

def matching(sx, k):
    """A list of books matches a system iff it is a list of its books in its order."""
    L = [sx.oneof('b%d' % i, ['GEN', 'EXO', 'MAL', 'MAT', 'JAM', 'ROM', 'TOB', 'RUT', 'CH1']) for i in range(k)]
    for i in range(k):
        for j in range(i): sx.assume(L[i] != L[j])
    r = bos.checkBookOrderSystem('test', L)
    sx.observe('r', r)
    want = 0
    for n in NAMES:
        full = bos.getBookOrderList(n)
        if isOrderedSublist(L, full): want += 1
    sx.check(r == want, 'number of systems with these books in this order')

def isOrderedSublist(L, full):
    last = -1
    for b in L:
        if b not in full: return False
        i = full.index(b)
        if i <= last: return False
        last = i
    return True

def wholeSystem(sx):
    n = sx.choice('n', NAMES)
    full = bos.getBookOrderList(n)
    sx.check(bos.checkBookOrderSystem('test', list(full)) >= 1, 'a system matches itself')
    sw = sx.int('swap', 0, len(full) - 2)
    i = sx.concrete(sw)
    if i > 3: return
    L = list(full); L[i], L[i+1] = L[i+1], L[i]
    r = bos.checkBookOrderSystem('test', L)
    sx.check(r == sum(isOrderedSublist(L, bos.getBookOrderList(m)) for m in NAMES), 'after swapping two books')

def organisational(sx, n):
    """Stepping through an organisational system visits exactly its own books."""
    o = OSYS[n]; books = o.getBookList(); order = [b for b in o.getBookOrderList()]
    mine = [b for b in order if b in books]
    i = sx.int('i', 0, len(mine) - 1)
    BBB = sx.concrete(mine[i]); i = sx.concrete(i)
    nx = o.getNextBookCode(BBB); pv = o.getPreviousBookCode(BBB)
    sx.check(nx == (mine[i+1] if i+1 < len(mine) else None), 'next included book')
    sx.check(pv == (mine[i-1] if i > 0 else None), 'previous included book')
    sx.check(o.containsBook(BBB), 'contains')
    s = sx.string('s', 3, 3, ABC)
    sx.check(sx.same(o.containsBook(s), sx.either(*[s == b for b in books])), 'contained iff included')

def cases(tier):
    L = []
    from types import SimpleNamespace
    for n in NAMES_STATIC:
        L += [('codes in ' + n, oneSystem, {'n': n}), ('positions in ' + n, positions, {'n': n})]
        if tier != 'quick' or n in ('EuropeanBible', 'Septuagint'): L.append(('pairs in ' + n, pairs, {'n': n}))
    L += [('matching a list of %d' % k, matching, {'k': k}) for k in ((1, 2, 3) if tier == 'quick' else (1, 2, 3, 4))]
    L += [('whole systems', wholeSystem, {})]
    L += [('stepping through ' + n, organisational, {'n': n}) for n in (('GENERIC-KJV-66', 'NKJV-NT', 'RV-DC', 'GENERIC-KJV-80'))]
    return L
NAMES_STATIC = ['EuropeanBible', 'HebrewStuttgart', 'Septuagint', 'VulgateBible', 'ModernJewish', 'LutheranBible', 'NRSVwithApocrypha']
