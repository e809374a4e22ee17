"""P31: Whatever is written through the XML writer can be read back as the same tree."""
from harness import common
PROPERTY = 'P31'
ASSUMPTIONS = ['texts and attribute values are escaped by the caller with escape_characters, as documented', 'elements are closed in the order in which they are nested']
OUTSIDE = 'where lines are broken and how they are indented; checking of wrong calls; validation against schemas; white space between pieces of text'
T = [(0x21, 0x29), (0x2b, 0x2c), (0x2e, 0x3b), (0x3c, 0x3e), (0x3f, 0x5b), (0x5d, 0x60), (0x61, 0x7a), (0xe9, 0xe9), (0x2019, 0x2019)]

def setup():
    global ML
    common.preload()
    from BibleOrgSys.InputOutput import MLWriter as ML_
    ML = ML_

class Node:
    def __init__(self, tag, attrs): self.tag, self.attrs, self.parts = tag, attrs, []
    # parts: Node, or ['text', glued to what comes before]

OPS = ('open', 'text', 'openText', 'openClose', 'self', 'close', 'comment', 'newline')
ATTRS = ('none', 'tuple', 'list', 'dict')
PLAIN = [(0x61, 0x7a), (0xe9, 0xe9), (0x2019, 0x2019)]
class Writing:
    def __init__(self, sx, W, special=0): self.sx, self.W, self.n, self.glued, self.special = sx, W, 0, False, special # special: which of the texts may have characters with a meaning in XML
    def dom(self): return T if self.n + 1 == self.special else PLAIN
    def name(self): self.n += 1; return '%d' % self.n
    def text(self, filler=0): d = self.dom(); return ('x ' * (filler // 2) + 'y ' * (filler % 2)) + self.sx.string('t' + self.name(), 1, 2 if d is T else 1, d)
    def attributes(self, kind):
        esc = ML.MLWriter.escape_characters
        if kind == 'none': return [], None
        d = self.dom(); a = self.sx.string('a' + self.name(), 1, 2 if d is T else 1, d)
        if kind == 'tuple': return [('i', a)], ('i', esc(a))
        if kind == 'list': return [('i', a), ('j', '7')], [('i', esc(a)), ('j', 7)]
        return [('i', a), ('k', 'é')], {'i': esc(a), 'k': 'é'}
    def put(self, x):
        self.top.parts.append([x, self.glued]) if not isinstance(x, Node) else self.top.parts.append(x)
    def start(self, tag): self.root = self.top = Node(tag, []); self.stack = [self.top]; self.W.writeLineOpen(tag)
    def do(self, op, attrs='none', filler=0, tag='b'):
        W, esc = self.W, ML.MLWriter.escape_characters
        if op == 'open':
            al, a = self.attributes(attrs); x = Node(tag, al); self.put(x); self.stack.append(x); self.top = x; W.writeLineOpen(tag, a)
        elif op == 'text': t = self.text(filler); self.put(t); W.writeLineText(esc(t))
        elif op == 'openText':
            al, a = self.attributes(attrs); t = self.text(filler); x = Node(tag, al); self.put(x); self.stack.append(x); self.top = x; self.glued = True; self.put(t); W.writeLineOpenText(tag, esc(t), a)
        elif op == 'openClose':
            al, a = self.attributes(attrs); t = self.text(filler); x = Node(tag, al); x.parts.append([t, True]); self.put(x); W.writeLineOpenClose(tag, esc(t), a)
        elif op == 'self': al, a = self.attributes(attrs); self.put(Node(tag, al)); W.writeLineOpenSelfclose(tag, a)
        elif op == 'comment': W.writeLineComment(esc(self.text()))
        elif op == 'newline': W.writeNewLine()
        elif op == 'close': self.stack.pop(); W.writeLineClose(self.top.tag); self.top = self.stack[-1]
        else: raise Exception(op)
        self.glued = False; self.last = op
    def glue(self): self.W.removeFinalNewline(suppressFollowingIndent=True); self.glued = self.last != 'comment'

def norm(s): return ''.join(s.split())

def compare(sx, x, e):
    sx.check(e.tag == x.tag, 'the name of the element')
    sx.check(list(e.keys()) == [k for k, v in x.attrs], 'the attributes of the element')
    for k, v in x.attrs: sx.check(sx.same(e.get(k), v), 'the value of an attribute')
    kids = [p for p in x.parts if isinstance(p, Node)]
    sx.check(len(e) == len(kids), 'the elements inside')
    texts = [e.text or ''] + [k.tail or '' for k in e]
    i = 0; want = [[]]
    for p in x.parts:
        if isinstance(p, Node): want.append([])
        else: want[-1].append(p)
    for w, t in zip(want, texts):
        sx.check(sx.same(norm(t), norm(''.join([s for s, g in w]))), 'the text')
        if len(w) == 1: sx.check(sx.same(' '.join(t.split()), w[0][0]), 'the words of the text')
        if len(w) == 2 and w[1][1]: sx.check(sx.same(t.strip(), w[0][0] + w[1][0]), 'no white space after removeFinalNewline')
    for k, ek in zip(kids, e): compare(sx, k, ek)

def finish(sx, w, path, how):
    if how == 'auto': w.W.autoClose()
    else:
        while w.stack: w.W.writeLineClose(w.stack.pop().tag)
        w.W.close(writeFinalNL=how == 'nl')
    compare(sx, w.root, sx.xml(path))

def writer(sx, readable='All', output='XML', ends='l', section=None, bom=False):
    p = sx.outPath('t.xml')
    W = ML.MLWriter(p, None, output)
    W.setHumanReadable(readable)
    W.start(lineEndings=ends, noAutoXML=False, writeBOM=bom)
    if section: W.setSectionName(section)
    return p, W

def calls(sx, n, readable, attrs=('none',), output='XML', ends='l', section=None, close='auto', tag='b', filler=(0,), ops=OPS, glue=(False, True), special=0):
    p, W = writer(sx, readable, output, ends, section)
    w = Writing(sx, W, sx.choice('special', tuple(range(1, special + 1))) if special else 0); w.start('a')
    for k in range(n):
        ok = [o for o in ops if o != 'close' or len(w.stack) > 1]
        op = sx.choice('op%d' % k, tuple(ok))
        a = sx.choice('attr%d' % k, attrs) if op in ('open', 'openText', 'openClose', 'self') and len(attrs) > 1 else attrs[0]
        f = sx.choice('fill%d' % k, filler) if op in ('text', 'openText', 'openClose') and len(filler) > 1 else filler[0]
        w.do(op, a, f, tag)
        if k + 1 < n and readable == 'All' and output == 'XML' and op != 'newline' and len(glue) > 1 and sx.choice('glue%d' % k, glue): w.glue()
    finish(sx, w, p, close)

def flushing(sx, n, step):
    """Texts around the size of the buffer, taking back the last newline each time"""
    p, W = writer(sx)
    w = Writing(sx, W); w.start('a')
    f = sx.choice('fill', tuple(range(940, 1020, step)))
    w.do('text', filler=f)
    for k in range(n):
        if sx.choice('glue%d' % k, (True, False)): w.glue()
        w.do(sx.choice('op%d' % k, ('openClose', 'text', 'openText')))
    finish(sx, w, p, 'plain')

def cases(tier):
    q = tier == 'quick'
    out = [('special characters', calls, dict(n=2, readable='All', attrs=('tuple', 'none'), special=2, glue=(False,), ops=('text', 'openText', 'openClose', 'self', 'open'))),
           ('special characters in lists', calls, dict(n=1, readable='All', attrs=('list', 'dict'), special=2, glue=(False,))),
           ('calls', calls, dict(n=3, readable='All')),
           ('attributes', calls, dict(n=2, readable='All', attrs=ATTRS, glue=(False,), close='plain')),
           ('everything on one line', calls, dict(n=3, readable='None', close='nl')),
           ('spaces instead of newlines', calls, dict(n=3, readable='NLSpace')),
           ('header', calls, dict(n=3, readable='Header', section='Header')),
           ('main part', calls, dict(n=3, readable='Header', section='Main', filler=(0, 70))),
           ('line ends of Windows', calls, dict(n=2, readable='All', ends='w', close='nl')),
           ('long texts', calls, dict(n=2, readable='All', filler=(0, 990), ops=('text', 'openClose', 'self'), attrs=('tuple',), close='plain')),
           ('size of the buffer', flushing, dict(n=2, step=9 if q else 1))]
    out += [('HTML %s' % t, calls, dict(n=3, readable='All', output='HTML', tag=t)) for t in ('div', 'p', 'em')]
    if not q: out += [('T calls', calls, dict(n=4, readable='All')), ('T one line', calls, dict(n=4, readable='None', filler=(0, 70))), ('T special characters', calls, dict(n=2, readable='All', attrs=ATTRS, special=3))]
    return out
