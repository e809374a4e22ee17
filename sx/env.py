"""sx.env -- process environment shared by the checker and the replayer (no writes outside a scratch folder)."""
import os, sys, tempfile, shutil, atexit, logging

def prepare(repo='/repo'):
    home = tempfile.mkdtemp(prefix='sxhome.')
    pid = os.getpid()
    def clean():
        if os.getpid() == pid: shutil.rmtree(home, ignore_errors=True)
    atexit.register(clean)
    os.environ['HOME'] = home
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    sys.dont_write_bytecode = True
    os.getlogin = lambda: 'sxuser'
    os.chdir(home)
    for p in ('/opt/venv/lib/python3.12/site-packages',):
        if p not in sys.path and os.path.isdir(p): sys.path.append(p)
    sys.setrecursionlimit(20000)
    logging.disable(logging.CRITICAL)
    return home
