"""P18: the nesting markers of a loaded book are balanced and enclose what belongs to them."""
from harness import common, bookmaker
PROPERTY = 'P18'
ASSUMPTIONS = ['lines as a USFM reader delivers them: known markers, verse lines starting with a number and a space']
OUTSIDE = 'Sword and OSIS sources, more lines than stated; the order in which overlapping blocks are closed'
def setup(): bookmaker.setup()

def run(sx, m, BBB='JNA'):
    b = bookmaker.book(m.lines, BBB)
    es = bookmaker.entries(b)
    mk = [e.getMarker() for e in es]
    sx.observe('markers', mk)
    opened = []                 # what is open now
    C = V = None; para = None; last = None
    nests = bookmaker.nesting()
    for e, x in zip(es, mk):
        if x[0] == '\u00ac':
            y = x[1:]
            sx.check(y in opened, 'only open blocks are closed')
            opened.remove(y)
            if y == 'v': sx.check(sx.same(e.getCleanText(), V), 'the end of a verse names the verse')
            if y == 'c': sx.check(sx.same(e.getCleanText(), C), 'the end of a chapter names the chapter')
            if y == 'chapters': sx.check('c' not in opened, 'chapters end before the book does')
            if y == 'c': sx.check('v' not in opened, 'verses end before their chapter')
            continue
        if x in nests:
            sx.check(x not in opened, 'a block is ended before another of its kind begins')
            opened.append(x)
        if x == 'c':
            C = e.getCleanText(); V = None
            sx.check('chapters' in opened and 'v' not in opened, 'a chapter begins inside the chapters and outside verses')
        elif x == 'v':
            V = e.getCleanText(); sx.check('c' in opened or C is None, 'verses are inside a chapter')
        elif x in ('v~', 'p~'):
            sx.check(x == 'p~' or 'v' in opened, 'verse text is inside its verse')
            if V is not None: sx.check('v' in opened, 'text after a verse number is inside that verse')
        elif x == 'v=':
            sx.check('v' not in opened or True, 'v=')
        if x in bookmaker.PARAS: para = x
        elif x in bookmaker.HEADS or x in ('b', 'ib', 'nb', 'c'): para = None
        elif x in ('v~', 'p~') and para is not None: sx.check(para in opened, 'text is inside its paragraph')
        sx.check(len([o for o in opened if o in bookmaker.PARAS]) <= 1, 'one paragraph at a time')
    sx.check(opened == [], 'everything is closed at the end')

def structure(sx, **kw): run(sx, bookmaker.make(sx, **kw), kw.get('BBB', 'JNA'))

def cases(tier): return [(n, structure, p) for n, p in bookmaker.structures(tier)]
