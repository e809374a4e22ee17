"""P25: loading USFM files."""
from harness import common
PROPERTY = 'P25'
ASSUMPTIONS = ['UTF-8 files', 'the first line is an \\id line']
OUTSIDE = 'lines with unknown markers which do not start with a known one and custom (z) markers: they are left out with an error message; wrongly nested alignments'
T = [(0x21, 0x21), (0x24, 0x29), (0x2b, 0x3b), (0x3f, 0x5b), (0x5d, 0x60), (0x61, 0x7a), (0xe9, 0xe9), (0x2019, 0x2019)]

def setup():
    global UB, Bible, NL
    G = common.preload()
    from types import SimpleNamespace
    G.commandLineArguments = SimpleNamespace(export=False)
    from BibleOrgSys.Formats import USFMBibleBook as UB
    from BibleOrgSys.Bible import Bible

def load(sx, lines, final=True):
    b = Bible(); b.abbreviation = 'T'; b.workName = 'T'
    k = UB.USFMBibleBook(b, 'JNA')
    q = sx.attempt(k.load, sx.file('JNA.usfm', lines, final))
    sx.check(q.ok, 'the file is loaded')
    return k

class Writer:
    """The lines of a file, and the marker/text pairs that they mean."""
    def __init__(self, sx): self.sx = sx; self.lines = []; self.want = []; self.n = 0; self.c = 0; self.v = 0; self.sects = 0
    def text(self, lo=2, hi=2, dom=T):
        self.n += 1
        return self.sx.string('t%d' % self.n, lo, hi, dom)
    def new(self, m, t): self.lines.append('\\%s %s' % (m, t) if t != '' else '\\' + m); self.want.append((m, t.replace('~', '\u00a0')))
    def more(self, line, space=True, always=False, joined=None):
        m, t = self.want.pop()
        self.lines.append(line)
        self.want.append((m, t + (' ' if always or space and not t[-1:] == ' ' else '') + (joined or line).replace('~', '\u00a0')))
    def step(self, k):
        t = None
        if k == 'c': self.c += 1; self.v = 0; self.new('c', str(self.c))
        elif k == 'v': self.v += 1; self.new('v', '%d %s' % (self.v, self.text()))
        elif k == 'v0': self.v += 1; self.new('v', str(self.v))
        elif k == 'v~': self.v += 1; self.new('v', '%d %s~%s' % (self.v, self.text(), self.text(1, 1)))
        elif k == 'vsp': self.v += 1; self.new('v', '%d %s ' % (self.v, self.text()))
        elif k in ('p', 'b', 'q2'): self.new(k, '')
        elif k[-1] == '+': self.new(k[:-1], self.text())
        elif k == 'blank': self.lines.append('')
        elif k == 'cont': t = self.text(); self.sx.assume(self.sx.no(t[:1] == '#')); self.more(t, always=True)
        elif k == 'add': self.more('\\add %s\\add*%s' % (self.text(), self.text(1, 1)))
        elif k == 'nd': self.more('\\nd %s\\nd*' % self.text())
        elif k == 'addopen': self.more('\\add ' + self.text())
        elif k == 'addclose': t = self.text(); self.more('\\add*' + t, joined='\\add* ' + t)
        elif k == 'w': self.more('\\w %s|x="%s"\\w*%s' % (self.text(), self.text(1, 1, 'aG1'), self.text(1, 1)))
        elif k == 'ww': self.more('\\w %s|x="1"\\w* \\w %s|x="2"\\w*' % (self.text(), self.text()))
        elif k == 'f': self.more('\\f + \\fr 1:1 \\ft %s\\f*%s' % (self.text(), self.text(1, 1)), False)
        elif k == 'x': self.more('\\x - \\xo 1:1 \\xt %s\\x*' % self.text())
        elif k == 'vinv':
            a, b = self.text(), self.text()
            self.lines.append('\\v %d %s \\v %d %s' % (self.v + 1, a, self.v + 2, b)); self.v += 2
            self.want += [('v', '%d %s' % (self.v - 1, a)), ('v', '%d %s' % (self.v, b))]
        elif k == 'vinqv':
            a, b, c = self.text(), self.text(), self.text()
            self.lines.append('\\v %d %s\\q1 %s\\v %d %s' % (self.v + 1, a, b, self.v + 2, c)); self.v += 2
            self.want += [('v', '%d %s' % (self.v - 1, a)), ('q1', b), ('v', '%d %s' % (self.v, c))]
        elif k == 'vaddp':
            a, b, c = self.text(), self.text(), self.text()
            self.v += 1
            self.lines.append('\\v %d %s \\add %s\\add* \\p %s' % (self.v, a, b, c))
            self.want += [('v', '%d %s \\add %s\\add*' % (self.v, a, b)), ('p', c)]
        elif k == 'vaddsp': self.v += 1; self.new('v', '%d %s\\add %s\\add* ' % (self.v, self.text(1, 1), self.text(1, 1)))
        elif k == 'vqq':
            a, b, c = self.text(), self.text(), self.text(); self.v += 1
            self.lines.append('\\v %d %s \\q1 %s \\q1 %s' % (self.v, a, b, c))
            self.want += [('v', '%d %s' % (self.v, a)), ('q1', b), ('q1', c)]
        elif k == 'glued':
            t = self.text(); self.v += 1
            self.sx.assume(self.sx.no('*' in t))
            self.lines.append('\\v%d %s' % (self.v, t)); self.want.append(('v', '%d %s' % (self.v, t)))
        elif k == 'unk':
            t = self.text(); self.lines.append('\\qz %s' % t); self.want.append(('q', 'z ' + t))
        elif k == 's5': self.lines.append('\\s5')
        elif k == 'ts': self.lines.append('\\ts\\*')
        elif k == 's5v': t = self.text(); self.v += 1; self.lines.append('\\s5 \\v %d %s' % (self.v, t)); self.want.append(('v', '%d %s' % (self.v, t)))
        elif k == 'tsv': t = self.text(); self.v += 1; self.lines.append('\\ts\\* \\v %d %s' % (self.v, t)); self.want.append(('v', '%d %s' % (self.v, t)))
        elif k == 'wopen':
            t, u = self.text(), self.text(); self.v += 1
            self.lines.append('\\v %d %s \\w %s' % (self.v, t, u)); self.want.append(('v', ('lost?', '%d %s' % (self.v, t), u)))
        else: raise ValueError(k)

NEW = ('c', 'v', 'v0', 'p', 'q1+', 's1+')
MORE = ('cont', 'add', 'nd', 'addopen', 'addclose', 'w', 'ww', 'f', 'x')
ODD = ('v~', 'vsp', 'vaddsp', 'vqq', 'vinv', 'vinqv', 'vaddp', 'glued', 'unk', 's5', 'ts', 's5v', 'tsv', 'blank', 'wopen')
ODD1 = ODD[:9] + ODD[11:14]

def compare(sx, got, want, label=''):
    sx.check(len(got) == len(want), label + 'one line for each marker')
    for (m, t), (wm, wt) in zip(got, want):
        sx.check(m == wm, label + 'the marker')
        if isinstance(wt, tuple):
            for part in wt[1:]: sx.check(part in t, label + 'no text is lost')
        else: sx.check(sx.same(t, wt), label + 'the text')

def sequences(sx, kinds, final=True):
    w = Writer(sx)
    w.new('id', 'JNA'); w.new('c', '1'); w.c = 1; w.new('p', '')
    for i, k in enumerate(kinds):
        w.step(sx.choice('k%d' % i, k) if isinstance(k, tuple) else k)
    k = load(sx, w.lines, final)
    compare(sx, k._rawLines, w.want)

def squeeze(s): return ''.join([c for c in s if c != ' '])

def aligned(sx, shape, seps, depths, punct=''):
    """A translation aligned with the original words (as unfoldingWord has them): groups of words, each between start
       and end milestones.  shape: for each verse the number of words of its groups; None an unaligned word"""
    W = lambda w: '\\w %s|x-occurrence="1" x-occurrences="1"\\w*' % w
    lines = ['\\id JNA', '\\c 1', '\\p']; want = [('id', 'JNA'), ('c', '1'), ('p', '')]; al = []; n = 0
    c, v = 1, 0
    for groups in shape:
        if groups == 'c':
            c += 1; v = 0; lines += ['\\c %d' % c, '\\p']; want += [('c', str(c)), ('p', '')]
            continue
        v += 1
        text = ''; cur = '\\v %d' % v; first = True; wm = ('v', str(v))
        for g in groups:
            if isinstance(g, str): # another paragraph inside the verse
                lines += cur.split('\n'); want.append((wm[0], wm[1] + text)); text = ''; cur = '\\' + g; wm = (g, ''); first = True
                continue
            n += 1
            sep = seps[n % len(seps)]
            if first and sep not in (' ', '\n'): sep = ' '
            first = False
            words = [W(sx.string('w%d_%d' % (n, i), 1, 2 if i == 0 else 1, T)) for i in range(g or 1)]
            d = depths[n % len(depths)] if g else 0
            mine = ['x-strong="%s"' % sx.string('s%d_%d' % (n, i), 1, 1, 'GH') for i in range(d)]
            inner = ''
            for i, w in enumerate(words): inner += ('' if i == 0 else '\n' if seps[(n + i) % len(seps)] == '\n' else ' ') + w
            after = sx.string('p%d' % n, 0, 1, punct) if punct else ''
            cur += sep + ''.join(['\\zaln-s |' + m + '\\*' for m in mine]) + inner + '\\zaln-e\\*' * d + after
            text += (squeeze(sep + ''.join(words)) if sep != '\n' else ''.join(words)) + after
            if d: al.append((str(c), str(v), '|'.join(mine), squeeze(''.join(words)), squeeze(''.join(words)) + after))
        lines += cur.split('\n'); want.append((wm[0], wm[1] + text))
    b = Bible(); b.abbreviation = 'T'; b.workName = 'T'; b.uWencoded = True
    k = UB.USFMBibleBook(b, 'JNA')
    q = sx.attempt(k.load, sx.file('JNA.usfm', lines))
    sx.check(q.ok, 'the file is loaded')
    got = k._rawLines
    sx.check(len(got) == len(want), 'one line for each marker')
    for (m, t), (wm, wt) in zip(got, want):
        sx.check(m == wm, 'the marker')
        sx.check(sx.same(squeeze(t), squeeze(wt)), 'the text without the milestones')
    merged = []
    for g in al: # a group with the same original words in the same verse belongs to the one before
        for i in range(len(merged) - 1, -1, -1):
            if merged[i][:2] == g[:2] and merged[i][2] == g[2]: merged[i] = g[:3] + (merged[i][3] + '&' + g[3], merged[i][4] + '&' + g[4]); break
        else: merged.append(g)
    S = getattr(k, 'uWalignments', [])
    sx.check(len(S) == len(merged), 'one alignment for each group of words')
    for (C, V, o, w), (c, v, wo, ww, after) in zip(S, merged):
        sx.check(C == c and V == v, 'where the alignment is')
        sx.check(sx.same(o, wo), 'the original words')
        if set(seps) == {'\n'}:
            w = squeeze(w)
            sx.check(w == ww or w == after, 'the words of the translation')

def cases(tier):
    out = []
    def s(name, *kinds, **kw): out.append((name, sequences, dict(kinds=kinds, **kw)))
    s('new new new', NEW, NEW, NEW)
    s('new more', ('v', 'p+', 's1+', 'q2'), MORE)
    s('new more more', 'v', MORE, MORE)
    s('more new', ('v', 'p+'), MORE, NEW)
    s('odd', ODD)
    s('new odd', ('v', 'p+'), ODD, final=False)
    s('odd more', ODD1, MORE)
    s('removed more', 'v', ('s5', 'ts'), MORE[1:])
    s('odd odd', ODD, ODD)
    if tier == 'thorough':
        s('T more more more', 'v', MORE, MORE, MORE)
        s('T new odd new', NEW, ODD, NEW)
        s('T new4', NEW, NEW, NEW, NEW)
    def a(name, shape, seps, depths, **kw): out.append(('aligned ' + name, aligned, dict(shape=shape, seps=seps, depths=depths, **kw)))
    a('lines', [[1, 1, 1]], ['\n'], [1])
    a('spaces', [[1, 1, 1]], [' '], [1])
    a('nested', [[1, 1], [1]], ['\n'], [2, 1])
    a('nested spaces', [[1, 2]], [' '], [2, 1])
    a('two words', [[2, 1], [2]], ['\n'], [1, 2])
    a('mixed', [[2, 1, 1]], [' ', '\n'], [1])
    a('dash', [[1, 1]], ['-'], [1])
    a('unaligned', [[None, 1, None, 1]], ['\n'], [1])
    a('two verses', [[1], [1, 1]], ['\n', ' '], [1])
    a('chapters', [[1, 1], 'c', [1], 'c', [1, 1]], ['\n'], [1])
    a('paragraphs', [[1, 'q1', 1, 'q2', 1], [1]], ['\n'], [1, 2])
    a('punctuation', [[1, 1], [1]], ['\n'], [1], punct=',.;')
    a('punctuation and paragraphs', [[2, 'q1', 1], [1]], ['\n'], [2, 1], punct=',.')
    if tier == 'thorough':
        a('T lines', [[1, 1, 1, 1, 1]], ['\n'], [1])
        a('T mixed', [[2, 1, 2], [1, 3]], [' ', '\n'], [1, 2])
        a('T nested', [[1, 2, 1], [2]], ['\n'], [3, 1])
        a('T nested spaces', [[1, 2, 1], [2]], [' '], [2, 3])
        a('T unaligned', [[None, 1, 1, None], [1, None, 2]], ['\n', ' '], [2, 1])
    return out
