"""P13: backing up a file never loses anything but the oldest backup, also when it is interrupted."""
import os, pathlib, shutil
from harness import common
PROPERTY = 'P13'
ASSUMPTIONS = ['each file operation (rename, remove, copy) either happens or not; no other program changes the files meanwhile']
OUTSIDE = 'folders with such names; operations done in part; more than nine backups'

def setup():
    global G
    common.preload()
    from BibleOrgSys import BibleOrgSysGlobals as G_
    G = G_

class Fault(Exception): pass

class Files:
    """The files of one folder: in symbolic runs a table (whether a file is there is symbolic), in replays real files.
    Operations are counted; the one numbered fault fails without happening."""
    def __init__(self, sx, folder, real):
        self.sx = sx; self.folder = folder; self.real = real; self.there = {}; self.what = {}; self.ops = 0; self.fault = None; self.names = set()
    def put(self, path, there, content):
        self.names.add(path)
        if self.real:
            if there:
                with open(path, 'wt', encoding='utf-8') as f: f.write(content)
        else: self.there[path] = there; self.what[path] = content
    def mine(self, p):
        try: p = os.fspath(p)
        except TypeError: return None
        return p if isinstance(p, str) and p.startswith(self.folder + os.sep) else None
    def isThere(self, p): return os.path.lexists(p) if self.real else self.there.get(p, False)
    def content(self, p):
        if self.real:
            with open(p, 'rt', encoding='utf-8') as f: return f.read()
        return self.what[p]
    def step(self):
        self.ops += 1
        if self.fault is not None and self.ops == self.fault: raise OSError(28, 'No space left on device')
    def __enter__(self):
        S = self; self.saved = []
        def patch(mod, name, fake):
            old = getattr(mod, name); self.saved.append((mod, name, old))
            def f(*a, **k): return fake(old, *a, **k)
            setattr(mod, name, f)
        def query(old, p, *a, **k):
            q = S.mine(p)
            return old(p, *a, **k) if q is None or S.real else S.there.get(q, False)
        def stat(old, p, *a, **k):
            q = S.mine(p)
            if q is None or S.real: return old(p, *a, **k)
            if not S.there.get(q, False): raise FileNotFoundError(2, 'No such file', q)
            return old(__file__)
        def move(old, a, b, *r, **k):
            p = S.mine(a); q = S.mine(b)
            if p is None or q is None: return old(a, b, *r, **k)
            S.step()
            if S.real: return old(a, b, *r, **k)
            if not S.there.get(p, False): raise FileNotFoundError(2, 'No such file', p)
            S.names.add(q); S.there[q] = True; S.what[q] = S.what[p]; S.there[p] = False
            return b
        def copy(old, a, b, *r, **k):
            p = S.mine(a); q = S.mine(b)
            if p is None or q is None: return old(a, b, *r, **k)
            S.step()
            if S.real: return old(a, b, *r, **k)
            if not S.there.get(p, False): raise FileNotFoundError(2, 'No such file', p)
            S.names.add(q); S.there[q] = True; S.what[q] = S.what[p]
            return b
        def remove(old, a, *r, **k):
            p = S.mine(a)
            if p is None: return old(a, *r, **k)
            S.step()
            if S.real: return old(a, *r, **k)
            if not S.there.get(p, False): raise FileNotFoundError(2, 'No such file', p)
            S.there[p] = False
        for mod, name, fake in ((os, 'access', query), (os.path, 'exists', query), (os.path, 'isfile', query), (os.path, 'lexists', query), (os, 'stat', stat),
                (os, 'rename', move), (os, 'replace', move), (shutil, 'move', move), (shutil, 'copy', copy), (shutil, 'copy2', copy), (shutil, 'copyfile', copy), (os, 'remove', remove), (os, 'unlink', remove)):
            patch(mod, name, fake)
        return self
    def __exit__(self, *a):
        for mod, name, old in reversed(self.saved): setattr(mod, name, old)
        return False

def backup(sx, name, ext, lo, hi, gens, faults, asPath, default=False, tie=99):
    folder = sx.scratchDir(); real = type(sx).__name__ == 'ConcCtx'
    fs = Files(sx, folder, real)
    n = 1 if default else sx.int('n', lo, hi)
    dot = ext if ext[0] == '.' else '.' + ext
    paths = [os.path.join(folder, name)] + [os.path.join(folder, name) + dot + ('' if g == 1 else str(g)) for g in range(1, gens + 1)]
    others = [os.path.join(folder, name + 'x'), os.path.join(folder, name) + dot + '0', os.path.join(folder, name) + dot + '1']
    old = []
    for g in range(gens + 1): old.append(sx.bool('e%d' % g) if g <= tie else old[tie])
    for g, p in enumerate(paths): fs.put(p, old[g], 'generation %d' % g)
    for i, p in enumerate(others): fs.put(p, True, 'other %d' % i)
    if faults: fs.fault = sx.int('fault', 1, faults)
    path = pathlib.Path(paths[0]) if asPath else paths[0]
    with fs:
        try:
            if default: G.backupAnyExistingFile(path)
            elif ext == 'bak': G.backupAnyExistingFile(path, n)
            else: G.backupAnyExistingFile(path, numBackups=n, extension=ext)
            ok = True
        except Exception as e: ok = False
    for p in others: sx.check(bool(fs.isThere(p)) and fs.content(p).startswith('other'), 'other files are left alone')
    found = []
    for g, p in enumerate(paths):
        if fs.isThere(p):
            c = fs.content(p); i = int(c.split(' ')[1])
            if not (found and found[-1] == i): found.append(i)   # a copy may be there twice
            if g > n: sx.check(i == g, 'older files than the backups asked for are left alone')
    sx.check(found == sorted(found), 'the files keep their order of age')
    for g in range(gens + 1):
        if g in found: sx.check(old[g], 'nothing appears from nowhere')
        elif g != n: sx.check(sx.no(old[g]), 'nothing but the oldest backup is lost')
        else: sx.check(sx.either(sx.no(old[g]), old[0]), 'nothing is lost if there is no file')
    if not faults:
        sx.check(ok, 'done')
        if old[0]: sx.check(bool(fs.isThere(paths[1])) and fs.content(paths[1]) == 'generation 0', 'the newest backup is the file')
        else: sx.check(found == [g for g in range(gens + 1) if fs.isThere(paths[g])] and all(fs.content(paths[g]) == 'generation %d' % g for g in found), 'nothing changes if there is no file')
        if old[0]:
            for g in range(2, gens + 1):
                if g <= n and all(bool(old[j]) for j in range(g)): sx.check(bool(fs.isThere(paths[g])) and fs.content(paths[g]) == 'generation %d' % (g - 1), 'every backup is one older')
    else: sx.check(ok or True, 'interrupted')

def cases(tier):
    q = tier == 'quick'; L = []
    g = 6 if q else 8
    for name in ('a.txt', 'b') if q else ('a.txt', 'b', 'x.bak', 'a b.usfm'):
        for ext in ('bak', '.old') if q else ('bak', '.old', '~', '2'):
            for asPath in (False, True):
                L.append(('backup %s %s %s' % (name, ext, asPath), backup, dict(name=name, ext=ext, lo=1, hi=4 if q else 7, gens=5 if q else 8, faults=0, asPath=asPath)))
    L.append(('default', backup, dict(name='a.txt', ext='bak', lo=1, hi=1, gens=3, faults=0, asPath=False, default=True)))
    L.append(('nine', backup, dict(name='a.txt', ext='bak', lo=9, hi=9, gens=10, faults=0, asPath=False, tie=4 if q else 7)))
    for asPath in (False, True):
        L.append(('interrupted %s' % asPath, backup, dict(name='a.txt', ext='bak', lo=1, hi=4 if q else 6, gens=5 if q else 7, faults=6 if q else 9, asPath=asPath)))
    return L
