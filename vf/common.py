"""Paths and small helpers shared by every check."""
import hashlib, json, os, shutil, subprocess, sys, tempfile, time, signal

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, '.build'))
JOBS = int(os.environ.get('VERIF_JOBS', str(min(8, os.cpu_count() or 4))))
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')


def log(*a):
    print('[%7.1fs]' % (time.time() - T0), *a, file=sys.stderr, flush=True)


T0 = time.time()


def sh(cmd, **kw):
    """run a command, return (rc, output)"""
    kw.setdefault('stdout', subprocess.PIPE)
    kw.setdefault('stderr', subprocess.STDOUT)
    p = subprocess.run(cmd, **kw)
    return p.returncode, (p.stdout or b'').decode('utf-8', 'replace')


def hash_files(paths, extra=''):
    h = hashlib.sha256()
    h.update(extra.encode())
    for p in paths:
        h.update(p.encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()


def walk(root, exts=None, skip=('bin', 'obj', '.git', '_build', 'Properties')):
    out = []
    for d, ds, fs in os.walk(root):
        ds[:] = sorted(x for x in ds if x not in skip)
        for f in sorted(fs):
            if exts is None or f.endswith(exts):
                out.append(os.path.join(d, f))
    return out


def mkdir(p):
    os.makedirs(p, exist_ok=True)
    return p


def write(p, s):
    mkdir(os.path.dirname(p))
    mode = 'wb' if isinstance(s, bytes) else 'w'
    with open(p, mode) as f:
        f.write(s)


def parallel(jobs, n=None):
    """jobs: list of (key, argv, kwargs) ; runs them n at a time; returns {key:(rc,out)}"""
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(n or JOBS) as ex:
        fs = [(k, ex.submit(sh, c, **(kw or {}))) for k, c, kw in jobs]
        return {k: f.result() for k, f in fs}


class BuildError(Exception):
    pass
