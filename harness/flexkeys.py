"""P08: the flexible verse key (single verses, lists, ranges and their combinations)."""
from harness import common, versekeys
from harness.versekeys import number, suffix, bang
PROPERTY = 'P08'
ASSUMPTIONS = ['verse numbers 1..199, suffix a..d; ranges up to three verses wide']
OUTSIDE = 'combinations the class does not list (refused, not checked for completeness); OSIS strings; expansion of whole-chapter keys; key text of combinations other than range-plus-verse'
FORMS = ['R,V', 'R,V,V', 'R,V,V,V', 'R,V,V,V,V', 'V,R', 'V,R,R', 'V,V,R,R', 'R,V,R', 'R,V,V,R', 'V,V,R', 'V,V,V,R', 'V,V,V,V,R',
         'V,R,V', 'V,V,R,V', 'R,R', 'R,R,V', 'R,R,V,V', 'R,R,R', 'R,R,R,R']

def setup():
    global FK
    versekeys.setup()
    FK = versekeys.VR.FlexibleVersesKey

def build(sx, form, width, digits, sufs, big):
    text = ''; exp = []; items = []
    for i, f in enumerate(form.split(',')):
        S1 = suffix(sx, 's%d' % i) if i in sufs else ''
        if f == 'V':
            V = number(sx, 'v%d' % i, digits, big)
            text = text + (',' if i else '') + V + bang(S1); exp.append((V, S1)); items.append([(V, S1)])
        else:
            S2 = suffix(sx, 't%d' % i) if i in sufs else ''
            lo = 1 if digits in (None, 1) else 20 if big else 10
            v = sx.int('v%d' % i, lo, 9 if digits == 1 else 99 - width if digits == 2 else 199 - width); w = sx.int('w%d' % i, 1, width)
            W = sx.concrete(w)
            text = text + (',' if i else '') + str(v) + bang(S1) + '-' + str(v + W) + bang(S2)
            it = [(str(v), S1)] + [(str(v + k), '') for k in range(1, W)] + [(str(v + W), S2)]
            exp += it; items.append(it)
    return text, exp, items

def combination(sx, form, width, digits, sufs, big):
    B = sx.oneof('B', ['GEN', 'SA2']); C = number(sx, 'C', 1)
    text, exp, items = build(sx, form, width, digits, sufs, big)
    text = B + '_' + C + ':' + text
    k = FK(text)
    full = [(B, C, V, S) for V, S in exp]
    sx.check(sx.same([x.getBCVS() for x in k.getIncludedVerses()], full), 'exactly the verses of the reference in order')
    sx.check(sx.same([y.getBCVS() for x in k for y in x.getIncludedVerses()], full), 'iterating over the parts gives the same')
    if form == 'R,V': sx.check(sx.same(k.getVerseKeyText(), text), 'round trip')
    ends = [(it[0] if len(it) == 1 else (it[0], it[-1])) for it in items]
    short = ', '.join([B + ' ' + C + ':' + e[0] + e[1] if isinstance(e[0], str) else B + ' ' + C + ':' + e[0][0] + e[0][1] + '-' + B + ' ' + C + ':' + e[1][0] + e[1][1] for e in ends])
    sx.check(sx.same(k.getShortText(), short), 'short text')

def simple(sx, form):
    """What the simpler keys accept gives the same verses and the same text."""
    C = number(sx, 'C', 1)
    if form == ';':
        V1 = number(sx, 'V1'); V2 = number(sx, 'V2', 1); C2 = number(sx, 'C2', 2); S1 = suffix(sx, 'S1'); S2 = suffix(sx, 'S2')
        text = 'GEN_' + C + ':' + V1 + bang(S1) + ';' + C2 + ':' + V2 + bang(S2)
        full = [('GEN', C, V1, S1), ('GEN', C2, V2, S2)]
    else:
        t, exp, items = build(sx, form, 3, None, (0, 1), False)
        text = 'GEN_' + C + ':' + t
        full = [('GEN', C, V, S) for V, S in exp]
    k = FK(text)
    sx.check(sx.same([x.getBCVS() for x in k.getIncludedVerses()], full), 'exactly the verses in order')
    sx.check(sx.same(k.getVerseKeyText(), text), 'round trip')

def anyString(sx, lo, hi, alpha):
    """Whatever is accepted consists of numbers from the text; a refusal is a TypeError."""
    s = sx.string('s', lo, hi, alpha)
    r = sx.attempt(FK, 'GEN_1:' + s)
    sx.check(r.ok or r.kind == 'TypeError', 'refused with TypeError only')
    ok = wellFormed(s)
    if ok == 0: sx.check(not r.ok, 'not a reference: refused')
    elif ok == 1: sx.check(r.ok, 'a proper reference is accepted')

def wellFormed(s):
    """1: verses and forward ranges joined by commas; 0: not that; 2: unspecified"""
    parts = s.split(',')
    for p in parts:
        ends = p.split('-')
        if len(ends) > 2: return 0
        n = []
        for e in ends:
            if len(e) == 0: return 0
            for c in e:
                if not '0' <= c <= '9': return 0
            if e[0] == '0': return 0
            if len(e) > 2: return 0
            n.append(int(e))
        if len(n) == 2 and n[1] <= n[0]: return 0
    return 1

def backwards(sx, form, which):
    C = number(sx, 'C', 1)
    text = ''
    for i, f in enumerate(form.split(',')):
        a = sx.int('v%d' % i, 10, 99)
        t = str(a)
        if f == 'R':
            b = sx.int('w%d' % i, 10, 99)
            if i == which: sx.assume(b < a)
            else: sx.assume(sx.both(b > a, b <= a + 2))
            t = t + '-' + str(b)
        text = text + (',' if i else '') + t
    r = sx.attempt(FK, 'GEN_' + C + ':' + text)
    sx.check(not r.ok, 'a backward range inside is refused')

def cases(tier):
    q = tier == 'quick'
    L = []
    for f in FORMS:
        n = f.count(',') + 1
        L.append((f, combination, {'form': f, 'width': 2 if q or n > 2 else 3, 'digits': 2, 'sufs': (0, n-1) if q or n > 3 else (0, 1, n-1), 'big': q or n > 2}))
        if n <= (2 if q else 3) and f != 'R,R,R': L.append((f + ' any digits', combination, {'form': f, 'width': 1, 'digits': None, 'sufs': (), 'big': False}))
    for f in ('V', 'V,V', 'R', ';'): L.append(('simple ' + f, simple, {'form': f}))
    L.append(('any string', anyString, {'lo': 1, 'hi': 6 if q else 7, 'alpha': '02,-'}))
    for f in FORMS:
        if q and f not in ('R,V', 'V,R', 'R,R', 'V,R,V', 'R,V,R'): continue
        for i, x in enumerate(f.split(',')):
            if x == 'R': L.append(('backwards %s %d' % (f, i), backwards, {'form': f, 'which': i}))
    return L
