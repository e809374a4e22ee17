"""sx.xmlsym -- parsing XML with symbolic characters in its texts and attribute values.

Stands for xml.etree.ElementTree while code runs symbolically (concrete runs and replays use the real one).
The result is made of real Element objects.  Only what an XML 1.0 file without a DTD needs.
"""
import xml.etree.ElementTree as ET
from .core import E
from .strs import elems, mkStr, elemEq

PREDEFINED = {'amp': '&', 'lt': '<', 'gt': '>', 'quot': '"', 'apos': "'"}
NAMESTART = set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_:')
NAME = NAMESTART | set('-.0123456789\u00b7')
SPACE = ' \t\n\r'

def bad(msg): 
    e = ET.ParseError('not well-formed: ' + msg); e.position = (0, 0); e.code = 4
    return e

def same(x, c):
    """Is element x the character c?  (forks when it can be either)"""
    r = elemEq(x, c)
    if r is True or r is False: return r
    return E.fork(r)

class Parser:
    def __init__(self, text):
        es = elems(text); out = []
        for i, x in enumerate(es): # line ends
            if x == '\r' and type(x) is str:
                if not (i + 1 < len(es) and type(es[i + 1]) is str and es[i + 1] == '\n'): out.append('\n')
            else: out.append(x)
        if out and type(out[0]) is str and out[0] == '\ufeff': out = out[1:]
        self.e = out; self.i = 0; self.n = len(out)
    def at(self, s):
        if self.i + len(s) > self.n: return False
        return all(same(self.e[self.i + k], c) for k, c in enumerate(s))
    def space(self):
        i0 = self.i
        while self.i < self.n and type(self.e[self.i]) is str and self.e[self.i] in SPACE: self.i += 1
        return self.i > i0
    def until(self, s, what):
        out = []
        while not self.at(s):
            if self.i >= self.n: raise bad('unclosed ' + what)
            out.append(self.e[self.i]); self.i += 1
        self.i += len(s)
        return out
    def name(self):
        from .strs import realiseStr
        out = ''
        while self.i < self.n:
            x = self.e[self.i]
            if type(x) is not str: x = realiseStr(mkStr([x]))
            if x in NAME or ord(x) > 0xbf: out += x; self.i += 1
            else: break
        if not out or (out[0] not in NAMESTART and ord(out[0]) <= 0xbf): raise bad('name expected')
        return out
    def entity(self):
        """After an ampersand"""
        name = ''
        while True:
            if self.i >= self.n: raise bad('entity')
            x = self.e[self.i]; self.i += 1
            if type(x) is not str:
                if same(x, ';'): x = ';'
                else:
                    from .strs import realiseStr
                    x = realiseStr(mkStr([x]))
            if x == ';': break
            if not (x in NAME or x == '#' or ord(x) > 0xbf): raise bad('entity')
            name += x
        if name[:1] == '#':
            try: return chr(int(name[2:], 16) if name[1:2] == 'x' else int(name[1:]))
            except ValueError: raise bad('character reference')
        if name not in PREDEFINED: raise bad('undefined entity ' + name)
        return PREDEFINED[name]
    def attributes(self):
        d = {}
        while True:
            sp = self.space()
            if self.i >= self.n: raise bad('unclosed tag')
            if type(self.e[self.i]) is str and self.e[self.i] in '/>?': return d
            if not sp: raise bad('space expected between attributes')
            k = self.name(); self.space()
            if not self.at('='): raise bad('= expected')
            self.i += 1; self.space()
            q = self.e[self.i] if self.i < self.n else None
            if not (type(q) is str and q in '"\''): raise bad('quote expected')
            self.i += 1; v = []
            while True:
                if self.i >= self.n: raise bad('unclosed attribute value')
                x = self.e[self.i]; self.i += 1
                if same(x, q): break
                if same(x, '<'): raise bad('< in an attribute value')
                if same(x, '&'): v.append(self.entity())
                elif type(x) is str and x in SPACE: v.append(' ')
                else: v.append(x)
            if k in d: raise bad('attribute given twice')
            d[k] = mkStr(v)
    def document(self):
        self.space() if not self.at('<?xml') else None
        root = None; stack = []; text = []
        ns = [{'xml': 'http://www.w3.org/XML/1998/namespace'}]
        def flush():
            nonlocal text
            if text:
                s = mkStr(text); text = []
                if not stack: return
                top = stack[-1][0]
                if len(top): top[-1].tail = s if top[-1].tail is None else top[-1].tail + s
                else: top.text = s if top.text is None else top.text + s
        def expand(name, scope, attrib):
            if ':' in name:
                p, n = name.split(':', 1)
                if p not in scope: raise bad('unbound prefix')
                return '{%s}%s' % (scope[p], n)
            if not attrib and scope.get(''): return '{%s}%s' % (scope[''], name)
            return name
        while self.i < self.n:
            x = self.e[self.i]
            if same(x, '<'):
                if self.at('<!--'):
                    self.i += 4; c = self.until('-->', 'comment'); continue
                if self.at('<![CDATA['):
                    self.i += 9; c = self.until(']]>', 'CDATA')
                    if not stack: raise bad('CDATA outside the root')
                    text += c; continue
                if self.at('<?'): self.i += 2; self.until('?>', 'processing instruction'); continue
                if self.at('<!'): self.i += 2; self.until('>', 'declaration'); continue
                flush(); self.i += 1
                if self.at('/'):
                    self.i += 1; t = self.name(); self.space()
                    if not self.at('>'): raise bad('> expected')
                    self.i += 1
                    if not stack or stack[-1][1] != t: raise bad('mismatched tag ' + t)
                    stack.pop(); ns.pop()
                    continue
                t = self.name(); d = self.attributes()
                closed = self.at('/')
                if closed: self.i += 1
                if not self.at('>'): raise bad('> expected')
                self.i += 1
                scope = dict(ns[-1])
                for k, v in d.items():
                    if k == 'xmlns': scope[''] = v
                    elif k.startswith('xmlns:'): scope[k[6:]] = v
                el = ET.Element(expand(t, scope, False), {expand(k, scope, True): v for k, v in d.items() if k != 'xmlns' and not k.startswith('xmlns:')})
                if stack: stack[-1][0].append(el)
                elif root is None: root = el
                else: raise bad('junk after the root element')
                if not closed: stack.append((el, t)); ns.append(scope)
                continue
            if same(x, '&'):
                if not stack: raise bad('text outside the root')
                self.i += 1; text.append(self.entity()); continue
            if not stack:
                if not (type(x) is str and x in SPACE): raise bad('text outside the root')
                self.i += 1; continue
            if same(x, '>') and len(text) > 1 and text[-2:] == [']', ']']: raise bad(']]> in text')
            text.append(x); self.i += 1
        if stack: raise bad('unclosed element ' + stack[-1][1])
        if root is None: raise bad('no element found')
        return root

def parse(text): return Parser(text).document()

class ElementTree:
    """For xml.etree.ElementTree.ElementTree"""
    def __init__(self, element=None, file=None):
        self._root = element
        if file is not None: self.parse(file)
    def parse(self, source, parser=None):
        import os
        from . import instr
        from .strs import joinStr
        vfs = instr.VFS; p = os.path.normpath(str(source))
        if vfs is not None and (p in vfs.data or p in vfs.linesOf): self._root = parse(joinStr('', vfs.lines(p)))
        else: self._root = ET.ElementTree().parse(source)
        return self._root
    def getroot(self): return self._root
