"""Monitors for the Python layer: groups of random cases, replayable one by one; the same reports as lib/vmon.hpp."""
import hashlib, json, math, os, random, shutil, sys, time, traceback

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.environ.get('VERIF_DIR') or os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TIER, SEED, OUT, PROG, ONLY, SHARD, NSHARDS = 'quick', 1, '', '', None, 0, 1
RANK = int(os.environ.get('OMPI_COMM_WORLD_RANK', 0))
_st = {'cases': {}, 'fp': {}, 'secs': {}, 'counters': {}, 'violations': [], 'samples': {}}
_fd = -1
on_failure = None


class Failure(Exception):
    pass


def count(name, n=1):
    _st['counters'][name] = _st['counters'].get(name, 0) + int(n)


def _put(txt):
    if _fd >= 0:
        os.pwrite(_fd, txt.encode(errors='replace') + b'\0', 0)


class kase:
    def __init__(self, group, index):
        self.group, self.index = group, index
        h = hashlib.sha256(('%d/%s/%d' % (SEED, group, index)).encode()).digest()
        self.rng = random.Random(int.from_bytes(h[:8], 'little'))
        self.head = 'CASE %s %d\n' % (group, index)
        self.log, self.fp, self.nontriv = '', None, False

    def i(self, lo, hi):
        return self.rng.randint(lo, hi)

    def r(self, a=0.0, b=1.0):
        return a + (b - a) * self.rng.random()

    def chance(self, p):
        return self.rng.random() < p

    def pick(self, v):
        return v[self.rng.randrange(len(v))]

    def shuffle(self, v):
        self.rng.shuffle(v)
        return v

    def normal(self):
        return self.rng.gauss(0, 1)

    def cplx(self):
        return complex(self.r(-1, 1), self.r(-1, 1))

    def array(self, *shape, cplx=False, lo=-1, hi=1):
        import numpy as np
        n = 1
        for s in shape:
            n *= s
        a = np.array([self.r(lo, hi) for _ in range(n)]).reshape(shape)
        return a + 1j * np.array([self.r(lo, hi) for _ in range(n)]).reshape(shape) if cplx else a

    def trace(self, *a):
        self.log += ' '.join(str(x) for x in a)[:600] + '; '
        if len(self.log) < 30000:
            _put(self.head + self.log)

    def check(self, ok, *what):
        count('oracle_checks')
        if not bool(ok):
            raise Failure(' '.join(str(x) for x in what)[:1500])

    def eq(self, got, ref, *what):
        count('oracle_checks')
        if not (got == ref):
            raise Failure((' '.join(str(x) for x in what) + ': got %r expected %r' % (got, ref))[:1500])

    def close(self, got, ref, tol, *what):
        """numbers or arrays, not-a-number is never close"""
        import numpy as np
        count('oracle_checks')
        g, e = np.asarray(got), np.asarray(ref)
        if g.shape != e.shape:
            raise Failure(' '.join(str(x) for x in what) + ': shape %s expected %s' % (g.shape, e.shape))
        d = np.abs(g - e)
        if not np.all(d <= tol):
            k = np.unravel_index(np.argmax(np.where(np.isnan(d), np.inf, d)), d.shape) if d.ndim else ()
            raise Failure((' '.join(str(x) for x in what) + ': got %s expected %s (tol %g)%s' % (g[k], e[k], tol, ' at %s' % (tuple(int(q) for q in k),) if k else ''))[:1500])

    def throws(self, f, *what, of=Exception):
        count('oracle_checks')
        try:
            f()
        except Failure:
            raise
        except of:
            return
        raise Failure(' '.join(str(x) for x in what) + ': no exception')

    def nontrivial(self, *fp):
        self.nontriv = True
        self.fp = hashlib.sha256(repr(fp).encode()).hexdigest()[:16]


def group(name, n_quick, n_thorough, fn):
    if ONLY and ONLY[0] != name:
        return
    n = n_thorough if TIER == 'thorough' else n_quick
    t0, bad = time.time(), 0
    for k in range(n):
        if bad >= 3:
            break
        if (ONLY and ONLY[1] is not None and k != ONLY[1]) or (not (ONLY and ONLY[1] is not None) and k % NSHARDS != SHARD):
            continue
        c = kase(name, k)
        _put(c.head)
        msg = None
        try:
            fn(c)
        except Failure as e:
            msg = str(e)
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            msg = 'unexpected exception: %s: %s at %s' % (type(e).__name__, str(e)[:400], ' < '.join('%s:%s' % (os.path.basename(f.filename), f.lineno) for f in reversed(tb[-4:])))
        _st['cases'][name] = _st['cases'].get(name, 0) + 1
        if msg is not None:
            bad += 1
            _st['violations'].append({'group': name, 'index': k, 'msg': msg, 'trace': c.log[:4000]})
            sys.stderr.write('MONITOR group=%s index=%d : %s\n  trace: %s\n' % (name, k, msg, c.log[:2000]))
            if on_failure:
                write()
                on_failure()
        if c.nontriv:
            _st['fp'].setdefault(name, set()).add(c.fp)
            sm = _st['samples'].setdefault(name, [])
            if len(sm) < 2:
                sm.append(c.log[:600])
    _st['secs'][name] = round(time.time() - t0, 3)
    _put('BETWEEN after %s\n' % name)


def write():
    if not OUT:
        return
    j = {'cases': _st['cases'], 'distinct': {k: len(v) for k, v in _st['fp'].items()}, 'secs': _st['secs'], 'counters': _st['counters'],
         'violations': _st['violations'], 'samples': ['%s: %s' % (g, s) for g, l in sorted(_st['samples'].items()) for s in l], 'complete': True}
    with open(OUT + '.tmp', 'w') as f:
        json.dump(j, f)
    os.rename(OUT + '.tmp', OUT)


def stage(stubs=(), omit=(), name='pkg', extra=None):
    """The Python package of the tree under test, with stand-ins for the compiled modules, in the scratch directory."""
    top = os.path.join(os.getcwd(), '%s%d' % (name, RANK))
    shutil.rmtree(top, ignore_errors=True)
    pkg = os.path.join(top, 'triqs')
    shutil.copytree(os.path.join(REPO, 'python', 'triqs'), pkg, ignore=lambda d, fs: [f for f in fs if f in omit or f == '__pycache__' or f.endswith('_desc.py')])
    os.rename(os.path.join(pkg, 'utility', 'mpi.py.in'), os.path.join(pkg, 'utility', 'mpi.py'))
    for s in stubs:
        src = os.path.join(VERIF, 'py', 'stubs', s)
        if os.path.isdir(src):
            shutil.copytree(src, os.path.join(top, s), dirs_exist_ok=True)
        else:
            dst = os.path.join(top, s)
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            shutil.copy(src, dst)
    for dst, txt in (extra or {}).items():
        os.makedirs(os.path.dirname(os.path.join(top, dst)), exist_ok=True)
        with open(os.path.join(top, dst), 'w') as f:
            f.write(txt)
    sys.path.insert(0, top)
    return top


def start():
    global TIER, SEED, OUT, PROG, ONLY, SHARD, NSHARDS, _fd
    a = sys.argv[1:]
    while a:
        o = a.pop(0)
        if o == '--seed':
            SEED = int(a.pop(0))
        elif o == '--tier':
            TIER = a.pop(0)
        elif o == '--out':
            OUT = a.pop(0)
        elif o == '--progress':
            PROG = a.pop(0)
        elif o == '--shard':
            SHARD, NSHARDS = (int(x) for x in a.pop(0).split('/'))
        elif o == '--only':
            g, _, k = a.pop(0).partition(':')
            ONLY = (g, int(k) if k else None)
    if RANK:
        OUT, PROG = (OUT and OUT + '.%d' % RANK), (PROG and PROG + '.%d' % RANK)
    if PROG:
        _fd = os.open(PROG, os.O_RDWR | os.O_CREAT | os.O_TRUNC, 0o644)
    sys.dont_write_bytecode = True


def finish():
    write()
    sys.stdout.flush()
    sys.stderr.flush()
    if 'mpi4py.MPI' in sys.modules:
        sys.modules['mpi4py.MPI'].Finalize()
    os._exit(1 if _st['violations'] else 0)


class quiet:
    """standard output of Python code is dropped"""
    def __enter__(self):
        self.o = sys.stdout
        sys.stdout = open(os.devnull, 'w')

    def __exit__(self, *a):
        sys.stdout.close()
        sys.stdout = self.o


start()
