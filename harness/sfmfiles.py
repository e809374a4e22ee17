"""P14: reading backslash-marked (SFM, USFM, ESFM) files loses nothing and misplaces nothing."""
from harness import common
PROPERTY = 'P14'
ASSUMPTIONS = ['UTF-8 files', 'key markers given without backslash', 'keys of records distinct when copied to a dictionary']
OUTSIDE = 'encodings other than UTF-8 and undecodable bytes; markers interrupted by a tab; what is logged'
BOM = '\ufeff'

def setup():
    global SF, UF, EF
    common.preload()
    from BibleOrgSys.InputOutput import SFMFile as SF_, USFMFile as UF_, ESFMFile as EF_
    SF, UF, EF = SF_, UF_, EF_

MARK = 'abz1~-'
def split(sx, line, usfm):
    """What the marker and text of a line starting with a backslash are; the first of the ending characters decides"""
    rest = line[1:]
    for i in range(len(rest)):
        c = rest[i]
        if c == ' ': return rest[:i], rest[i+1:]
        if usfm and c == '*': return rest[:i+1], rest[i+1:]
        if c == '\\':
            if usfm and i + 1 < len(rest) and rest[i+1] == '*': return rest[:i+2], rest[i+2:]
            return rest[:i], rest[i:]
    return rest, ''

def oracle(sx, lines, ignore, kind):
    out = []; ignored = False
    for line in lines:
        if line == '' or line[0] == '#': continue
        if kind == 'ESFM':
            while len(line) and line[0] == ' ': line = line[1:]
            if line == '': continue
        if line[0] != '\\':
            if out and not ignored: m, t = out.pop(); out.append((m, t + ' ' + line))
            continue
        m, t = split(sx, line, kind != 'SFM')
        ignored = isin(m, ignore)
        if not ignored: out.append((m, t))
    return out

def isin(m, seq):
    for s in seq:
        if m == s: return True
    return False

def reader(kind):
    return {'SFM': SF.SFMLines, 'USFM': UF.USFMFile, 'ESFM': EF.ESFMFile}[kind]()

def same(sx, got, want, label):
    sx.check(len(got) == len(want), label + ': one for each marker')
    for g, w in zip(got, want):
        sx.check(len(g) == 2 and sx.same(g[0], w[0]), label + ': the marker')
        sx.check(sx.same(g[1], w[1]), label + ': the text')

def anyLines(sx, kind, lens, dom, ignore, bom, final):
    """Lines of any characters"""
    lines = [sx.string('l%d' % i, 0, n, dom) for i, n in enumerate(lens)]
    if bom: lines[0] = BOM + lines[0]
    f = sx.file('f.sfm', lines, final)
    r = reader(kind)
    a = sx.attempt(r.read, f, ignoreSFMs=ignore) if ignore is not None else sx.attempt(r.read, f)
    sx.check(a.ok, 'the file is read')
    if bom: lines[0] = lines[0][1:]
    same(sx, r.lines, oracle(sx, lines, ignore or (), kind), 'lines')

def written(sx, kind, shapes, ignore, tl, ml):
    """Lines of given shapes with any markers and texts"""
    lines = []; want = []; ign = False
    for i, s in enumerate(shapes):
        t = sx.string('t%d' % i, tl, tl, TEXT) if 0 < i < len(shapes) - 1 else ' y\\'
        if s == 'blank': lines.append(''); continue
        if s == 'comment': lines.append('#' + t); continue
        if s == 'cont':
            c = sx.char('c%d' % i, 'x"\u00e9*1') if i == len(shapes) - 1 else 'z'; lines.append(c + t)
            if want and not ign: want[-1] = (want[-1][0], want[-1][1] + ' ' + c + t)
            continue
        m = sx.string('m%d' % i, ml, ml, 'abq1')
        ign = isin(m, ignore)
        if s == 'space': lines.append('\\' + m + ' ' + t); w = (m, t)
        elif s == 'only': lines.append('\\' + m); w = (m, '')
        elif s == 'back':
            sx.assume(sx.no(t[:1] == '*')); lines.append('\\' + m + '\\' + t); w = (m, '\\' + t)
        elif s == 'star': lines.append('\\' + m + '*' + t); w = (m + '*', t)
        elif s == 'self': lines.append('\\' + m + '\\*' + t); w = (m + '\\*', t)
        if s in ('star', 'self'): ign = False
        if not ign: want.append(w)
    r = reader(kind)
    a = sx.attempt(r.read, sx.file('f.sfm', lines), ignoreSFMs=ignore)
    sx.check(a.ok, 'the file is read')
    same(sx, r.lines, want, 'lines')
TEXT = 'a \\*#"\u00e9'

def records(sx, nLines, key, ignore, entries, pairs, tl, cont, marks, bom=False):
    """Records: split before every key marker"""
    lines = []; flat = []
    for i in range(nLines):
        if i in cont: lines.append(cont[i]); continue
        m = sx.oneof('m%d' % i, marks); t = sx.string('t%d' % i, i % 2 * tl, tl, 'ab ' if i % 2 else 'ab')
        lines.append('\\' + m + ' ' + t if i % 2 else '\\' + m + ' ' + t)
    k = key; recs = []; cur = None
    for i, line in enumerate(lines):
        if line == '' or line[0] == '#': continue
        if line[0] != '\\': cur[-1] = (cur[-1][0], cur[-1][1] + ' ' + line); continue
        m, t = split(sx, line, False)
        for a, b in pairs or ():
            if m == a: m = b; break
        if not k and not isin(m, ignore): k = m
        if cur is None or m == k: cur = []; recs.append(cur)
        cur.append((m, t))
    want = []
    for rec in recs:
        if isin(rec[0][1], entries): continue
        rec = [x for x in rec if not isin(x[0], ignore)]
        if rec: want.append(rec)
    if bom: lines[0] = BOM + lines[0]
    R = SF.SFMRecords()
    a = sx.attempt(R.read, sx.file('r.sfm', lines), key, ignore, entries, pairs)
    sx.check(a.ok, 'the file is read')
    sx.check(len(R.records) == len(want), 'the number of records')
    for g, w in zip(R.records, want): same(sx, g, w, 'record')
    lo, hi, ms, sets = R.analyze()
    if want: sx.check(lo == min(len(w) for w in want) and hi == max(len(w) for w in want), 'the smallest and largest record')
    wm = []; wv = []
    for w in want:
        for m, t in w:
            for j, x in enumerate(wm):
                if m == x: break
            else: j = len(wm); wm.append(m); wv.append([])
            if not isin(t, wv[j]): wv[j].append(t)
    sx.check(len(ms) == len(wm) and len(sets) == len(wm), 'the number of markers')
    for m, vs in zip(wm, wv):
        sx.check(isin(m, ms), 'a marker listed')
        s = sets[m]
        sx.check(len(s) == len(vs), 'the number of values')
        for v in vs: sx.check(isin(v, s), 'a value listed')

def leading(sx, bad):
    """Text before the first marker of a file of records is refused, never dropped"""
    t = sx.string('t', 0, 2, 'ab')
    R = SF.SFMRecords()
    a = sx.attempt(R.read, sx.file('r.sfm', [bad + t, '\\lx ' + t]), 'lx')
    sx.check(not a.ok, 'refused')

def dicts(sx, how, n, per, kl, marks):
    """Copied to a dictionary by key"""
    lines = []; want = []
    for i in range(n):
        k = sx.string('k%d' % i, 0, kl, 'ab'); 
        for q, x in want: sx.assume(sx.no(sx.same(k, q)))
        lines.append('\\lx ' + k); fields = []; want.append((k, fields))
        for j in range(per):
            m = sx.oneof('m%d.%d' % (i, j), marks); v = sx.string('v%d.%d' % (i, j), 1, 1, 'ab')
            lines.append('\\' + m + ' ' + v); fields.append((m, v))
    R = SF.SFMRecords(); R.read(sx.file('r.sfm', lines), 'lx')
    a = sx.attempt(R.copyToDict, how)
    sx.check(a.ok, 'copied')
    d = a.value
    sx.check(len(d) == n, 'one entry for each record')
    for k, fields in want:
        sx.check(k in d, 'the key is there')
        got = d[k]
        if how == 'list': same(sx, got, fields, 'fields')
        else:
            last = []
            for m, v in fields:
                last = [x for x in last if not x[0] == m] + [(m, v)]
            sx.check(len(got) == len(last), 'the number of fields')
            for m, v in last: sx.check(sx.same(got[m], v), 'the value of a field')

def splitOne(sx, n):
    line = sx.string('l', 0, n, 'a \\*#1')
    m, t = UF.splitUSFMMarkerFromText(line)
    if line == '': sx.check(m is None and t == '', 'nothing'); return
    if line[0] != '\\': sx.check(m is None and sx.same(t, line), 'no marker'); return
    wm, wt = split(sx, line, True)
    sx.check(sx.same(m, wm), 'marker'); sx.check(sx.same(t, wt), 'text')

def cases(tier):
    q = tier == 'quick'; L = []
    L.append(('split', splitOne, dict(n=5 if q else 8)))
    D = '\\a *#'
    for kind in ('SFM', 'USFM', 'ESFM'):
        for lens in ((4,), (3, 2), (2, 1, 2)) if q else ((7,), (4, 4), (3, 3, 3), (2, 2, 2, 2)):
            L.append(('any %s %s' % (kind, lens), anyLines, dict(kind=kind, lens=lens, dom=D, ignore=None, bom=False, final=True)))
        L.append(('any bom %s' % kind, anyLines, dict(kind=kind, lens=(3, 2) if q else (4, 3), dom=D, ignore=None, bom=True, final=False)))
        L.append(('any ignore %s' % kind, anyLines, dict(kind=kind, lens=(2, 2, 2) if q else (3, 3, 3), dom='\\ab ', ignore=('a',), bom=False, final=True)))
        shapes = ['space', 'only', 'back', 'cont', 'blank', 'comment'] + (['star', 'self'] if kind != 'SFM' else [])
        for a in shapes:
            for b in shapes:
                if q: L.append(('written %s %s %s' % (kind, a, b), written, dict(kind=kind, shapes=('space', a, b, 'cont'), ignore=('a',), tl=1, ml=1)))
                else:
                    for c in shapes: L.append(('written %s %s %s %s' % (kind, a, b, c), written, dict(kind=kind, shapes=(a, b, 'only', c, 'cont'), ignore=('a', 'q1'), tl=1, ml=1 if a == b else 2)))
    ms = ['lx', 'ps', 'k']
    n = 4
    for key in (None, 'lx'):
        L.append(('records %s' % key, records, dict(nLines=n, key=key, ignore=(), entries=(), pairs=None, tl=1 if q else 2, cont={}, marks=ms)))
        L.append(('records ignoring %s' % key, records, dict(nLines=n, key=key, ignore=('ps',), entries=('a',), pairs=None, tl=1 if q else 2, cont={}, marks=ms)))
        L.append(('records renaming %s' % key, records, dict(nLines=n, key=key, ignore=('k',), entries=('b', ''), pairs=(('ps', 'lx'), ('lx', 'k')), tl=1 if q else 2, cont={}, marks=ms)))
        L.append(('records continued %s' % key, records, dict(nLines=n + 1, key=key, ignore=('k',), entries=('a b',), pairs=(('ps', 'q'),), tl=1, cont={1: 'b', 3: '# c' if q else ''}, marks=ms, bom=True)))
    for bad in ('x', ' \\lx ', '1', '*'): L.append(('leading %r' % bad, leading, dict(bad=bad)))
    for how in ('list', 'dict'):
        L.append(('dict %s' % how, dicts, dict(how=how, n=2, per=2, kl=1, marks=['a', 'gl'])))
        if not q: L.append(('dict3 %s' % how, dicts, dict(how=how, n=2, per=3, kl=2, marks=['a', 'b', 'gl'])))
    return L
