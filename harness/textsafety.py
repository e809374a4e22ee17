"""P12: text helpers: XML escaping, safe filenames / strings, accent removal, simultaneous adjustments, word trimming."""
import unicodedata
PROPERTY = 'P12'
ASSUMPTIONS = ['adjustments do not overlap and name text that is really there, as the documentation requires']
OUTSIDE = 'strings longer than the stated bounds; unpaired surrogates'

def setup():
    global G
    from harness import common
    G = common.globalsModule()

def unescape(s):
    return s.replace('&lt;', '<').replace('&gt;', '>').replace('&quot;', '"').replace('&apos;', "'").replace('&amp;', '&')

def xmlEscape(sx, n):
    s = sx.string('s', 0, n)
    r = G.makeSafeXML(s)
    sx.observe('r', r)
    sx.check(sx.no(sx.either('<' in r, '>' in r, '"' in r)), 'no markup characters left')
    sx.check(unescape(r) == s, 'unescapes to the original')

def safeFilename(sx, n):
    s = sx.string('s', 0, n); c = sx.string('c', 1, 1)
    r = G.makeSafeFilename(s + c)
    sx.observe('r', r)
    for x in '/\\:;#?*<>':
        sx.check(sx.no(x in r), ('unsafe character', repr(x)))
    one = G.makeSafeFilename(c)
    sx.check(len(one) > 0, 'no character vanishes')
    sx.check(r == G.makeSafeFilename(s) + one, 'character by character')
    if not sx.charsIn(c, '/\\:;#?*<>'): sx.check(one == c, 'ordinary characters stay')

def safeString(sx, n):
    s = sx.string('s', 0, n); c = sx.string('c', 1, 1)
    r = G.makeSafeString(s + c)
    sx.observe('r', r)
    sx.check(sx.no(sx.either('<' in r, '>' in r)), 'no angle brackets left')
    one = G.makeSafeString(c)
    sx.check(r == G.makeSafeString(s) + one, 'character by character')
    if c != '<' and c != '>': sx.check(one == c, 'the rest is kept')
    else: sx.check(len(one) > 1, 'replaced by a word')

def accents(sx, n):
    """Latin letters lose their accents and keep their case; everything else is unchanged."""
    s = sx.string('s', 0, n, [(0x20, 0x17F), (0x390, 0x3CF), (0x5B0, 0x5EA)]); c = sx.string('c', 1, 1)
    r = G.removeAccents(s + c)
    sx.observe('r', r)
    one = G.removeAccents(c)
    sx.check(r == G.removeAccents(s) + one, 'character by character')
    sx.check(G.removeAccents(r) == r, 'nothing more to remove')
    if sx.charsIn(c, LATIN):
        cc = sx.concrete(c)
        sx.check(one == unicodedata.normalize('NFD', cc)[0], 'base letter')
    elif sx.charsIn(c, 'ÆæÐðØø'):
        sx.check(one == {'Æ': 'AE', 'æ': 'ae', 'Ð': 'D', 'ð': 'd', 'Ø': 'O', 'ø': 'o'}[sx.concrete(c)], 'plain spelling')
    elif sx.charsIn(c, EXTENDED):
        if one != c and len(one) == 1:
            d = unicodedata.normalize('NFD', sx.concrete(c))
            if len(d) > 1: sx.check(one == d[0], 'base letter')
            else: sx.check(sx.charsIn(one, 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'), 'plain letter')
    elif sx.no(sx.charsIn(c, EXTENDED)): sx.check(one == c, 'not an accented Latin letter')
LATIN = ''.join(chr(c) for c in range(0xC0, 0x100) if len(unicodedata.normalize('NFD', chr(c))) > 1)   # Latin-1 letters
EXTENDED = ''.join(chr(c) for c in range(0xC0, 0x250))

def adjustments(sx, n, k):
    """All adjustments are applied as if at once, in whatever order they are given."""
    t = sx.string('t', n, n, [(0x20, 0x7E)])
    pos = 0; adj = []; want = ''
    for i in range(k):
        gap = sx.int('gap%d' % i, 0 if i == 0 else 1, n); flen = sx.int('flen%d' % i, 0, 2)
        rep = sx.string('rep%d' % i, 0, 2, 'ab ')
        start = pos + gap if i == 0 else pos + gap
        sx.assume(start + flen <= n)
        want = want + t[pos:start] + rep
        adj.append((sx.concrete(start), t[start:start+flen], rep))
        pos = sx.concrete(start + flen)
    want = want + t[pos:]
    order = sx.choice('order', PERMS[k])
    given = [adj[i] for i in order]
    r = G.applyStringAdjustments(t, given)
    sx.observe('r', r)
    sx.check(sx.same(r, want), 'as if at once')
    sx.check(len(given) == k, 'the list given is not changed')
PERMS = {1: [(0,)], 2: [(0, 1), (1, 0)], 3: [(2, 0, 1), (1, 0, 2), (2, 1, 0)]}

WORD = 'ab0é' + """“”‘’()<>[,."'…:-—%"""
def trimWord(sx, n):
    w = sx.string('w', 0, n, WORD)
    r = G.stripWordEndsPunctuation(w)
    sx.observe('r', r)
    k = len(w) - len(r)
    sx.check(k >= 0, 'never longer')
    lead, trail = '“«„"‘¿¡‹\'([{<', ',.”»"’›\'?)!;:]}>%…—।'
    sx.check(sx.either(*[sx.both(sx.same(w[i:i+len(r)], r), sx.charsIn(w[:i], lead), sx.charsIn(w[i+len(r):], trail)) for i in range(k+1)]),
             'only leading and trailing punctuation is removed')
    if len(r):
        pairs = '“”‘’()<>[]'
        sx.check(sx.either(sx.no(sx.charsIn(r[0], lead)), sx.charsIn(r[0], pairs)), 'no leading punctuation left')
        sx.check(sx.either(sx.no(sx.charsIn(r[-1], trail)), sx.charsIn(r[-1], pairs)), 'no trailing punctuation left')
        if sx.charsIn(w[1:], 'ab0é\'"') and sx.charsIn(w[0], '“‘(<['): sx.check(sx.no(sx.same(r[0], w[0])), 'unmatched opening mark removed')
        if sx.charsIn(w[:-1], 'ab0é\'"') and sx.charsIn(w[-1], '”’)>'): sx.check(sx.no(sx.same(r[-1], w[-1])), 'unmatched closing mark removed')
    if sx.charsIn(w, 'ab0é'): sx.check(r == w, 'plain word unchanged')

def pairedWord(sx, n):
    """A word inside one pair of matching marks comes back bare; marks inside a word stay."""
    x = sx.string('x', 1, n, 'abé-')
    sx.assume(sx.both(x[0] != '-', x[-1] != '-'))
    o = sx.choice('pair', ['“”', '‘’', '()', '[]', '{}', '<>', '«»', '‹›', '¿?', '¡!'])
    sx.check(sx.same(G.stripWordEndsPunctuation(o[0] + x + o[1]), x), 'matching pair removed')
    sx.check(sx.same(G.stripWordEndsPunctuation(o[0] + x + ',' + o[1]), x), 'pair and comma removed')
    sx.check(sx.same(G.stripWordEndsPunctuation(o[0] + x + o[1] + '.'), x), 'pair removed before a stop')
    sx.check(sx.same(G.stripWordEndsPunctuation(o[0] + x + ',' + o[1] + '.'), x), 'pair and comma removed before a stop')
    sx.check(sx.same(G.stripWordEndsPunctuation('"' + o[0] + x + o[1] + '"'), x), 'quoted pair removed')
    sx.check(sx.same(G.stripWordEndsPunctuation(o[0] + x), x), 'lone opening mark removed')
    sx.check(sx.same(G.stripWordEndsPunctuation(x + o[1]), x), 'lone closing mark removed')
    sx.check(sx.same(G.stripWordEndsPunctuation(x + o[0] + x + o[1]), x + o[0] + x + o[1]), 'inner pair kept')

def endings(sx, n):
    t = sx.string('t', 0, n, 'abc')
    e = [sx.string('e%d' % i, 1, 2, 'abc') for i in range(2)]
    r = G.removeStringEndings(t, e)
    sx.observe('r', r)
    want = t
    for x in e:
        if want.endswith(x): want = want[:len(want)-len(x)]
    sx.check(sx.same(r, want), 'each ending once, in the order given')
    sx.check(t.startswith(r), 'a beginning of the text')

def cases(tier):
    q = tier == 'quick'
    n = 4 if q else 6
    return [
        ('makeSafeXML', xmlEscape, {'n': n}, {'bounds': 'all Unicode strings of length <= %d' % n}),
        ('makeSafeFilename', safeFilename, {'n': 1 if q else 2}, {'bounds': 'all Unicode strings of length <= %d' % (2 if q else 3)}),
        ('makeSafeString', safeString, {'n': n - 1}, {'bounds': 'all Unicode strings of length <= %d' % n}),
        ('removeAccents', accents, {'n': 0}, {'bounds': 'every single character'}),
        ('removeAccents of two', accents, {'n': 1 }, {}) if not q else ('removeAccents of words', accentWord, {'n': 2}, {}),
        ('applyStringAdjustments 2', adjustments, {'n': 4 if q else 5, 'k': 2}, {}),
        ('stripWordEndsPunctuation', trimWord, {'n': 3 if q else 4}, {}),
        ('stripWordEndsPunctuation pairs', pairedWord, {'n': 3}, {}),
        ('removeStringEndings', endings, {'n': 4 if q else 5}, {}),
    ] + ([] if q else [('applyStringAdjustments 3', adjustments, {'n': 4, 'k': 3}, {})])

def accentWord(sx, n):
    s = sx.string('s', n, n, 'aÀéñçÆøżŽ αא')
    r = G.removeAccents(s)
    sx.observe('r', r)
    want = ''
    for i in range(n): want = want + G.removeAccents(s[i])
    sx.check(sx.same(r, want), 'character by character')
