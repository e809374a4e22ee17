"""P38: the files of a folder are found under their books."""
import os
from harness import common
PROPERTY = 'P38'
ASSUMPTIONS = ['the file system lists the files of a folder in any order, each once', 'book codes and numbers are those of the book code tables (see P02)']
OUTSIDE = 'which book is meant by a file name alone when it is not one of the patterns, file names in lower case (except USX), language codes in which another book code and its number occur, folders with several patterns'
BS = chr(92)
_listdir = os.listdir
ORDER = None
def listdir(*a):
    """The names in the order of the case: as given there, reversed or rotated."""
    names = sorted(_listdir(*a))
    if ORDER is None: return names
    if ORDER == 'reversed': return names[::-1]
    if ORDER == 'rotated': return names[1:] + names[:1]
    return names

def setup():
    global G, B, U, X, TRIPLES, XTRIPLES, CODES
    G = common.preload()
    from BibleOrgSys.InputOutput import USFMFilenames as UF, USXFilenames as XF
    U = UF.USFMFilenames; X = XF.USXFilenames
    B = G.loadedBibleBooksCodes
    TRIPLES = {b: (c, d) for c, d, b in B.getAllUSFMBooksCodeNumberTriples()}
    XTRIPLES = {b: (c, d) for c, d, b in B.getAllUSXBooksCodeNumberTriples()}
    CODES = {c.upper(): B.getBBBFromUSFMAbbreviation(c) for c in B.getAllUSFMBooksCodes()}
    os.listdir = listdir

def folder(sx, files, orders=('sorted', 'reversed', 'rotated')):
    """A folder with the files {name: lines}; returns its path."""
    global ORDER
    ORDER = None
    d = sx.scratchDir(); b = os.path.basename(d)
    for n, lines in files.items():
        if lines is None: os.mkdir(os.path.join(d, n))
        else: sx.file(os.path.join(b, n), lines)
    if len(files) < 3: orders = tuple(x for x in orders if x != 'rotated')
    ORDER = sx.choice('order', orders) if len(files) > 1 and orders else None
    return d

def inOrder(pairs): return B.getSequenceList(list(pairs))

OTHERS = {'README.TXT': [BS + 'id GEN'], 'book_names.txt': ['x'], '01GENeng.SFM~': [BS + 'id GEN'], 'Gen.bak': [BS + 'id GEN'], 'EXO': None, 'notes.ssf': ['<x>']}

# -- By the id line

def bookOf(sx, token, following):
    """The book which an id line is about, or None."""
    t = token.upper()
    for r, n in (('I', '1'), ('II', '2'), ('III', '3')):
        if t == r: t = n
    if t in ('1', '2', '3') and following: t += following.upper()
    if t[:4] == 'JUDG': t = 'JDG'
    if len(t) > 2 and t[1] in '_-': t = t[0] + t[2:]
    return CODES.get(t[:3])

def idLine(sx, n, dom, lead, rest):
    """What is on the id line of one file; a second file without an id line is not taken for a book."""
    token = sx.string('token', 0, n, dom)
    before = sx.choice('before', lead)
    after = sx.choice('after', rest)
    lines = {'': [], 'bom': [], 'blank': [''], 'rem': [BS + 'rem x'], 'two': ['', '']}[before] + [('\ufeff' if before == 'bom' else '') + BS + 'id ' + token + after, BS + 'c 1']
    d = folder(sx, {'b.usfm': lines, 'a.txt': ['Hello', BS + 'c 1']}, ())
    u = U(d)
    got = u.getPossibleFilenameTuplesInt()
    t = sx.concrete(token); words = (t + after).split()
    sx.observe('line', lines[-2])
    book = bookOf(sx, words[0], words[1] if len(words) > 1 else '') if words and before != 'two' else None
    sx.check(got == ([(book, 'b.usfm')] if book else []), 'the book of the id line')
    sx.check(sorted(u.getUnusedFilenames()) == (['a.txt'] if book else ['a.txt', 'b.usfm']), 'the other files')
    sx.check(len(u) == len(got), 'the number of files found')

def duplicates(sx, n, books):
    """Of several files for one book none is taken."""
    ids = [sx.choice('id%d' % i, books) for i in range(n)]
    files = {'%s.usfm' % 'bdace'[i]: [BS + 'id ' + x + ' text' if x else BS + 'h x', BS + 'c 1'] for i, x in enumerate(ids)}
    d = folder(sx, files)
    u = U(d)
    want = inOrder([(CODES[x], '%s.usfm' % 'bdace'[i]) for i, x in enumerate(ids) if x and ids.count(x) == 1])
    sx.observe('ids', ids)
    sx.check(u.getPossibleFilenameTuplesInt() == want, 'the files of the books which have just one')
    m = u.getMaximumPossibleFilenameTuples()
    sx.check(m == want, 'the most that is found')

# -- By the file name

TEMPLATES = {'ddBBBlll': '{d}{c}{l}', 'lllddBBB': '{l}{d}{c}', 'dd-BBB': '{d}-{c}', 'BBB-dd': '{c}-{d}', 'BBBdd': '{c}{d}', 'ddBBB': '{d}{c}'}
def nameOf(template, book, lang): 
    c, d = TRIPLES[book]
    return TEMPLATES[template].format(c=c.upper(), d=d, l=lang)

def patterns(sx, templates, sets, exts, others, inside):
    t = sx.choice('template', templates); ext = sx.choice('ext', exts)
    lang = sx.choice('lang', ('eng', 'QQX') + (('abcde', 'z') if t == 'ddBBBlll' else ())) if 'lll' in t else ''
    if lang == 'z': lang = 'zzzz'
    books = sx.choice('books', sets)
    ids = [sx.choice('id%d' % i, inside) for i in range(len(books))]
    files = {}; said = {}
    for b, i in zip(books, ids):
        c = TRIPLES[b][0].upper(); o = 'LEV'
        f = nameOf(t, b, lang) + '.' + ext
        said[f] = i
        files[f] = {'own': [BS + 'id ' + c], 'own with text': [BS + 'id ' + c + ' A text'], 'other': [BS + 'id ' + o + ' x'], 'none': [BS + 'h x']}[i] + [BS + 'c 1']
    if others: files.update({n: l for n, l in OTHERS.items() if n not in files})
    d = folder(sx, files)
    u = U(d)
    sx.observe('files', sorted(files))
    n = len(lang)
    p = t.replace('lll', ('l' if lang != lang.upper() else 'L') * n) if lang else t
    sx.check(u.getFilenameTemplate() == p and u.fileExtension == ext, 'the pattern of the file names')
    named = {b: nameOf(t, b, lang) + '.' + ext for b in books}
    sx.check(sorted(u.getAllFilenames()) == sorted(named.values()), 'the files but the ones which are to be ignored')
    D = u.getDerivedFilenameTuples()
    sx.check(dict(D)['EXO'] == nameOf(t, 'EXO', lang) + '.' + ext and len(set(D)) == len(D) and all(x in D for x in named.items()), 'the file names that would fit')
    want = inOrder(named.items())
    sx.check(u.getConfirmedFilenameTuples() == want, 'the files which fit')
    sx.check(len(u) == len(want) and sorted(u.getUnusedFilenames()) == sorted(x for x in files if x not in named.values()), 'the other files')
    sx.check(u.getConfirmedFilenameTuples(strictCheck=True) == [x for x in want if said[x[1]] in ('own', 'own with text')], 'the files which are what their names say')
    sx.check(u.getMaximumPossibleFilenameTuples() == want, 'the most that is found')

def bibledit(sx, k):
    """The other known forms of names"""
    style = sx.choice('style', ('bibledit', 'oeb'))
    names = sx.choice('books', ((('GEN', '1_Genesis'), ('CH2', '14_2_Chronicles')), (('SNG', '22_Song_of_Solomon'), ('JN3', '64_3_John'), ('REV', '66_Revelation')), (('MAT', '40_Matthew'),))) if style == 'bibledit' else \
        sx.choice('books', ((('GEN', '01-Genesis'), ('CH2', '14-2 Chronicles')), (('SNG', '22-Song-of-Solomon'), ('JN3', '64-3 John'), ('REV', '66-Revelation')), (('MAT', '40-Matthew'),)))
    files = {n + '.usfm': [BS + 'h x'] for b, n in names}
    files['README.TXT'] = ['x']
    u = U(folder(sx, files)); sx.observe('files', sorted(files))
    sx.check(u.getConfirmedFilenameTuples() == [(b, n + '.usfm') for b, n in names], 'the files which fit')
    sx.check(u.getUnusedFilenames() == ['README.TXT'], 'the other files')

def ssf(sx, k):
    have = [n for n in ('eng.ssf', 'ENG.SSF', 'eng.ssf~', 'ssf', 'a.sfm') if sx.bool('has ' + n)]
    d = folder(sx, {n: ['x'] for n in have})
    sx.check(sorted(U(d).getSSFFilenames()) == sorted(os.path.join(d, n) for n in have if n in ('eng.ssf', 'ENG.SSF')), 'the settings files')

# -- USX

def usx(sx, sets, forms):
    form = sx.choice('form', forms); ext = sx.choice('ext', ('usx', 'USX'))
    books = sx.choice('books', sets)
    files = {}; named = {}; ok = {}
    for i, b in enumerate(books):
        c, d = XTRIPLES[b]
        if form == 'dd-BBB': k = int(d); d = '%02d' % (k + 1 if k > 39 else k)
        f = {'dddBBB': d + c.upper(), 'BBB': c.upper(), 'bbb': c.lower(), 'dd-BBB': d + '-' + c.upper()}[form] + '.' + ext
        k = sx.choice('inside%d' % i, ('usx', 'same line', 'no declaration', 'other', 'short') if i == 0 else ('usx', 'other'))
        head = "<?xml version='1.0' encoding='utf-8'?>"
        files[f] = {'usx': [head, '<usx version="2.0">', '<book/>'], 'same line': ['\ufeff' + head + '<usx>', '<book/>', '</usx>'], 'no declaration': ['<usx>', '<book/>', '</usx>'], 'other': [head, '<osis>', '<book/>'], 'short': [head]}[k]
        named[b] = f; ok[f] = k not in ('other', 'short')
    files['notes.txt'] = ['x']
    x = X(folder(sx, files, ('sorted', 'reversed'))); sx.observe('files', sorted(files))
    sx.check(x.getFilenameTemplate() == form and x.fileExtension == ext, 'the pattern of the file names')
    want = inOrder(named.items())
    sx.check(x.getConfirmedFilenameTuples() == want, 'the files which fit')
    sx.check(x.getUnusedFilenames() == ['notes.txt'], 'the other files')
    sx.check(x.getConfirmedFilenameTuples(strictCheck=True) == [y for y in want if ok[y[1]]], 'the files which are USX inside')

def cases(tier):
    q = tier == 'quick'
    out = []
    out.append(('id code', idLine, dict(n=3, dom='gGENIS1 ' if q else 'genGEISA1 ', lead=('',), rest=('',))))
    out.append(('id lines', idLine, dict(n=1, dom='GIJ1e ', lead=('', 'blank', 'rem', 'two', 'bom'), rest=('', 'EN', ' Sa', '_SA - x', 'en Genesis', 'UDGES', 'I  sa x'))))
    if not q: out.append(('id code 4', idLine, dict(n=4, dom='GENISAJUD1_ ', lead=('',), rest=('', ' x'))))
    out.append(('duplicates', duplicates, dict(n=3 if q else 4, books=('', 'GEN', '1SA', 'EXO'))))
    one = (('GEN',), ('SA1',), ('JHN',), ('FRT',))
    two = (('GEN', 'MAT'), ('SA1', 'SA2'), ('JHN', 'JN3'), ('MA1', 'REV'))
    every = ('own', 'own with text', 'other', 'none')
    for n, t in enumerate(TEMPLATES):
        out.append(('names ' + t, patterns, dict(templates=(t,), sets=one + two if q else one + two + (('GEN', 'SA1', 'REV'), ('CO1', 'COL', 'CO2')), exts=('usfm', 'SFM') if q else ('usfm', 'SFM', 'txt'), others=not q, inside=('own',) if q else ('own', 'other'))))
    out.append(('names and others', patterns, dict(templates=tuple(TEMPLATES), sets=(('GEN', 'MAT'),), exts=('SFM',), others=True, inside=('own',))))
    out.append(('names and ids', patterns, dict(templates=('ddBBBlll', 'BBB-dd') if q else tuple(TEMPLATES), sets=(('GEN', 'MAT'),), exts=('SFM',), others=False, inside=every)))
    out.append(('bibledit', bibledit, dict(k=0)))
    out.append(('settings files', ssf, dict(k=0)))
    for f in ('dddBBB', 'BBB', 'bbb', 'dd-BBB'):
        out.append(('usx ' + f, usx, dict(sets=(('GEN',), ('GEN', 'SA1'), ('CH1', 'MAT')) + ((('SA1',), ('MAT', 'CO1'), ('COL', 'CO1')) if f != 'dd-BBB' else (('GEN', 'MAL', 'REV'),)), forms=(f,))))
    return out
