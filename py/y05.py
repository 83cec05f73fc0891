"""Work distribution over processes: slices, the mpi wrapper of one and of several processes, task farming."""
import io, os, sys, time
import numpy as np
import vmon
from vmon import group

NP = int(os.environ.get('VERIF_MPI', '0'))
if not NP:
    for k in ('OMPI_COMM_WORLD_RANK', 'PMI_RANK', 'CRAY_MPICH_VERSION', 'TRIQS_FORCE_MPI_INIT'):
        os.environ.pop(k, None)
CM = 'class Comm_stand_in: pass\n'
vmon.stage(extra={'triqs/__init__.py': '', 'triqs/utility/__init__.py': ''})

err = sys.stderr


class captured:
    def __enter__(self):
        self.o, self.e = sys.stdout, sys.stderr
        sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
        return self

    def __exit__(self, *a):
        self.out, self.err = sys.stdout.getvalue(), sys.stderr.getvalue()
        sys.stdout, sys.stderr = self.o, self.e


def thing(c, rank=0, depth=0):
    """a random object which can be sent; the same on all ranks for the same stream"""
    k = c.i(0, 9 if depth < 2 else 6)
    if k == 0:
        return c.i(-10**12, 10**12)
    if k == 1:
        return c.r(-1, 1)
    if k == 2:
        return ''.join(c.pick(['a', 'ß', '\n', 'z']) for _ in range(c.i(0, 6)))
    if k == 3:
        return c.cplx()
    if k == 4:
        return bool(c.i(0, 1))
    if k == 5:
        return c.array(c.i(0, 4), c.i(1, 3), cplx=c.chance(.5))
    if k == 6:
        return c.array(c.i(1, 20000))
    if k == 7:
        return [thing(c, rank, depth + 1) for _ in range(c.i(0, 3))]
    if k == 8:
        return {q: thing(c, rank, depth + 1) for q in range(c.i(0, 3))}
    return (None, thing(c, rank, depth + 1), ())


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.dtype == b.dtype and a.shape == b.shape and bool(np.all(a == b))
    if type(a) != type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[x], b[x]) for x in a)
    return a == b


# ---------------------------------------------------------------- one process, no MPI
def serial():
    import triqs.utility.mpi as mpi
    with captured():
        import triqs.utility.mpi_mpi4py as wrap
    import triqs.utility.mpi_nompi as nompi
    from triqs.utility.dist_on_nodes import DistributionOnNodes, DistributionOnNodesOneStack

    def choice(c):
        # which of the two modules stands behind triqs.utility.mpi
        names = {'OMPI_COMM_WORLD_RANK': ['0', '3'], 'PMI_RANK': ['0', '7'], 'CRAY_MPICH_VERSION': ['8.1'], 'TRIQS_FORCE_MPI_INIT': ['1', 'on']}
        on = [n for n in names if c.chance(.3)]
        old = {n: os.environ.pop(n, None) for n in names}
        try:
            for n in on:
                os.environ[n] = c.pick(names[n])
            with captured() as out:
                got = mpi.check_for_mpi()
        finally:
            for n in names:
                os.environ.pop(n, None)
                if old[n] is not None:
                    os.environ[n] = old[n]
        c.trace(on)
        c.eq(bool(got), bool(on), 'MPI environment recognised')
        c.check(mpi.world is None and mpi.size == 1 and mpi.rank == 0, 'without MPI the module of one process is to be used')
        c.nontrivial(on)

    def agree(c):
        # the fallback and the wrapper of one process do the same
        for m in (nompi, wrap):
            c.check(m.size == 1 and m.rank == 0 and m.is_master_node() is True, 'one process')
            x = thing(c)
            c.trace(type(x))
            c.check(same(m.bcast(x), x) and same(m.bcast(x, 0), x) and same(m.bcast(x, root=0), x), 'broadcast')
            m.barrier()
            m.barrier(0)
            m.barrier(poll_msec=c.pick([0, None, .1, 1]))
            a = c.array(c.i(1, 4), c.i(1, 3), cplx=c.chance(.5))
            c.check(same(m.all_reduce(a), a) and same(m.all_reduce(a, m.world), a), 'all_reduce')
            z = c.pick([3, -2.5, 1j, 'ab', [1, 2]])
            c.check(same(m.all_reduce(z), z), 'all_reduce of', z)
            with captured():
                old = m.all_reduce(m.world, z, None)  # the old order of arguments
            c.check(same(old, z), 'all_reduce with the old signature', old)
            s = m.slice_array(a)
            c.check(s.shape == a.shape and np.shares_memory(s, a) and (s == a).all(), 'slice of one process')
            with captured() as out:
                m.report('hello', z)
            c.eq(out.out, 'hello\n%s\n' % (z,), 'report')
            with captured() as out:
                m.report('hello', stderr=True)
            c.check(out.err == 'hello\n' and out.out == '', 'report to stderr')
            with captured() as out:
                m.master_gets_host_names()
            c.check('Node 0  on machine' in out.out, 'host names')
            c.nontrivial(m.__name__, repr(x)[:100])

    def send_recv(c):
        log = []
        for _ in range(c.i(1, 6)):
            x = thing(c)
            log.append(type(x).__name__)
            nompi.send(x, 0)
            if x is not None:
                c.check(same(nompi.recv(c.pick([0, 0])) if c.chance(.5) else nompi.recv(), x), 'what was sent is received', x)
        c.trace(log)
        c.throws(lambda: nompi.recv(), 'nothing was sent')
        c.nontrivial(log)

    def slices(c):
        # the arithmetic of the slices for any number of processes
        n, size = c.pick([0, 1, 2, 3, c.i(0, 12), c.i(0, 400)]), c.pick([1, 2, 3, c.i(1, 9), c.i(1, 70)])
        imin = c.pick([0, 0, 1, c.i(-20, 20)])
        cols = c.i(1, 3)
        A = np.arange(n * cols).reshape(n, cols)
        c.trace('n', n, 'size', size, 'from', imin)
        rank0 = wrap.rank
        nxt, sizes, at = imin, [], 0
        try:
            wrap.size = size
            for r in range(size):
                wrap.rank = r
                a, b = wrap.slice_inf(imin, imin + n - 1), wrap.slice_sup(imin, imin + n - 1)
                c.eq(a, nxt, 'start of the slice of rank', r)
                c.check(b >= a - 1, 'end of the slice', r, a, b)
                nxt = b + 1
                sizes.append(b - a + 1)
                s = wrap.slice_array(A)
                c.check(s.shape == (sizes[-1], cols) and (s == A[at:at + sizes[-1]]).all(), 'slice of the array at rank', r)
                c.check(s.size == 0 or np.shares_memory(s, A), 'a slice is a view')
                at += sizes[-1]
        finally:
            wrap.rank, wrap.size = rank0, 1
        c.eq(nxt, imin + n, 'end of the last slice')
        c.check(max(sizes) - min(sizes) <= 1, 'sizes', sizes)
        vmon.count('slices', size)
        c.nontrivial(n, size, imin)

    def farm(c):
        farm_case(c, mpi, DistributionOnNodes, DistributionOnNodesOneStack)

    group('which_module', 100, 1000, choice)
    group('serial_and_wrapper_agree', 300, 5000, agree)
    group('serial_send_recv', 300, 5000, send_recv)
    group('slices', 1500, 30000, slices)
    group('farm_1', 300, 5000, farm)


# ---------------------------------------------------------------- task farm on any number of processes
def farm_case(c, mpi, Dist, OneStack):
    n = c.pick([0, 1, 2, mpi.size - 1, mpi.size, mpi.size + 1, c.i(0, 12), c.i(3, 40)])
    items = [c.pick([q, q, 0, 0.0, '', 'x%d' % q, [q], (q, 0), False]) if c.chance(.7) else np.arange(q % 3 + 1) for q in range(n)]
    durations = [0 if c.chance(.6) else c.r(0, .004) for _ in range(n)]
    slow = c.i(0, mpi.size)          # one of the ranks may be slow
    nones = [c.chance(.1) for _ in range(n)]  # computations without a result
    dynamic = c.chance(.4)
    holes = dynamic and c.chance(.4)          # next() may be None: nothing to compute
    grow = [c.i(0, 2) if dynamic and c.chance(.3) else 0 for _ in range(n)]
    big = c.chance(.2)               # results beyond the size of small messages
    ser = c.index
    logf = os.path.join(os.getcwd(), 'log%d' % ser)
    c.trace('tasks', n, 'dynamic', dynamic, 'holes', holes, 'slow', slow, 'big', big, [str(x) for x in items])

    def work(x):
        k, item, dur = x
        if dur:
            time.sleep(dur)
        if slow == mpi.rank and mpi.size > 1:
            time.sleep(.003)
        fd = os.open(logf, os.O_WRONLY | os.O_APPEND | os.O_CREAT, 0o644)
        os.write(fd, b'%d %d\n' % (k, mpi.rank))
        os.close(fd)
        if k < len(nones) and nones[k]:
            return None
        return (k, item, np.full(20000 if big else 3, k + .5))

    mpi.barrier(0)
    if dynamic:
        class D(Dist):
            SleepTime = .001

            def __init__(self):
                self.todo, self.done, self.k, self.hole = [(k, items[k], durations[k]) for k in range(n)], [], n, 0

            def finished(self):
                return not self.todo

            def __next__(self):
                if holes and self.hole % 3 == 1 and self.hole < 60:
                    self.hole += 1
                    return None
                self.hole += 1
                return self.todo.pop(0)

            def treate(self, x, node):
                self.done.append((node, x))
                for _ in range(grow[x[0]] if x[0] < n else 0):
                    self.todo.append((self.k, 'more', 0))
                    self.k += 1

            def the_function(self, x):
                return work(x)
        d = D()
        d.run()
        res, total = d.done, d.k
    elif c.chance(.3):
        # the tasks themselves are the items, falsy ones included
        bare = c.chance(.6)     # ... and so are their results

        class F(OneStack):
            SleepTime = .001

            def the_function(self, x):
                fd = os.open(logf, os.O_WRONLY | os.O_APPEND | os.O_CREAT, 0o644)
                os.write(fd, b'%d %d\n' % (-1, mpi.rank))
                os.close(fd)
                return x if bare else ('f', x)
        d = F(list(items))
        res = d.run()
        mpi.barrier(0)
        if mpi.rank == 0:
            c.eq(len(res), n, 'number of results')
            left = list(items)
            for node, x in res:
                c.check(0 <= node < mpi.size, 'node of a result')
                val, mark = (x, 'f') if bare else (x[1], x[0])
                k = next((q for q, i in enumerate(left) if same(i, val)), None)
                c.check(k is not None and mark == 'f', 'a result which does not belong to an item left', x)
                left.pop(k)
            txt = open(logf).read().split('\n')[:-1] if os.path.exists(logf) else []
            c.eq(len(txt), n, 'number of computations')
            vmon.count('tasks', n)
            if os.path.exists(logf):
                os.unlink(logf)
        c.nontrivial(n, 'items', repr([str(i) for i in items]))
        mpi.barrier(0)
        return
    else:
        class S(OneStack):
            SleepTime = .001

            def the_function(self, x):
                return work(x)
        d = S([(k, items[k], durations[k]) for k in range(n)])
        res, total = d.run(), n
    mpi.barrier(0)
    if mpi.rank == 0:
        log = [tuple(int(v) for v in q.split()) for q in (open(logf).read().split('\n')[:-1] if os.path.exists(logf) else [])]
        c.eq(sorted(k for k, _ in log), list(range(total)), 'tasks computed')
        where = dict(log)
        c.eq(sorted(x[0] for _, x in res), [k for k in range(total) if not (k < n and nones[k])], 'results delivered')
        for node, x in res:
            c.check(node == where[x[0]], 'node of the result of task', x[0], ':', node, 'computed on', where[x[0]])
            c.check(same(x[1], items[x[0]] if x[0] < n else 'more') and (x[2] == x[0] + .5).all() and len(x[2]) == (20000 if big else 3), 'result of task', x[0])
        if mpi.size > 1:
            vmon.count('ranks_used_%d' % len(set(where.values())))
        vmon.count('tasks', total)
        if os.path.exists(logf):
            os.unlink(logf)
        c.nontrivial(n, total, dynamic, slow, repr(log)[:2000])
    mpi.barrier(0)


# ---------------------------------------------------------------- several processes
def parallel():
    with captured() as first:
        import triqs.utility.mpi as mpi
    from mpi4py import MPI
    from triqs.utility.dist_on_nodes import DistributionOnNodes, DistributionOnNodesOneStack
    if mpi.size != NP:
        raise SystemExit('expected %d processes' % NP)

    def stop():
        sys.stderr.flush()
        MPI.COMM_WORLD.Abort(1)
    vmon.on_failure = stop

    def collective(c):
        op = c.pick(['bcast', 'sum', 'max', 'min', 'list', 'ring', 'gather', 'old', 'barrier', 'delay'])
        root = c.i(0, NP - 1)
        per = [(c.array(3), c.i(-5, 5), c.r(-1, 1)) for _ in range(NP)]
        mine = per[mpi.rank]
        late = c.i(0, NP - 1)
        if c.chance(.3) and late == mpi.rank:
            time.sleep(.002)
        c.trace(op, 'root', root)
        if op == 'bcast':
            x = thing(c)
            got = mpi.bcast(x if mpi.rank == root else None, root) if c.chance(.5) else mpi.bcast(x if mpi.rank == root else 'other', root=root)
            c.check(same(got, x), 'broadcast', got, x)
            y = thing(c)
            c.check(same(mpi.bcast(y if mpi.rank == 0 else None), y), 'broadcast from the master')
        elif op == 'sum':
            c.close(mpi.all_reduce(mine[0]), sum(p[0] for p in per), 1e-12, 'sum of arrays')
            c.eq(mpi.all_reduce(mine[1]), sum(p[1] for p in per), 'sum of integers')
            c.eq(mpi.all_reduce(mine[1], mpi.world, MPI.SUM), sum(p[1] for p in per), 'sum of integers')
        elif op in ('max', 'min'):
            f, o = (max, MPI.MAX) if op == 'max' else (min, MPI.MIN)
            c.eq(mpi.all_reduce(mine[2], op=o), f(p[2] for p in per), op)
            c.eq(mpi.all_reduce(mine[1], comm=mpi.world, op=o), f(p[1] for p in per), op)
        elif op == 'list':
            c.check(same(mpi.all_reduce([mine[1], mpi.rank]), sum(([p[1], q] for q, p in enumerate(per)), [])), 'lists in the order of the ranks')
        elif op == 'old':
            with captured():
                got = mpi.all_reduce(mpi.world, mine[1], None)
            c.eq(got, sum(p[1] for p in per), 'old signature')
        elif op == 'ring':
            sh = c.i(1, NP - 1) if NP > 1 else 0
            x = [thing(c) for _ in range(NP)]
            if NP > 1:
                dst, src = (mpi.rank + sh) % NP, (mpi.rank - sh) % NP
                if mpi.rank % 2 == 0 or sh % 2 == 0:
                    req = MPI.COMM_WORLD.isend(x[mpi.rank], dest=dst)
                    got = mpi.recv(src)
                    req.wait()
                else:
                    req = MPI.COMM_WORLD.isend(x[mpi.rank], dest=dst)
                    got = mpi.recv(source=src)
                    req.wait()
                c.check(same(got, x[src]), 'received', got, x[src])
                # to and from the master
                if mpi.rank == 0:
                    for q in range(1, NP):
                        mpi.send(x[q], q)
                    for q in range(1, NP):
                        c.check(same(mpi.recv(q), ('back', x[q])), 'returned')
                else:
                    mpi.send(('back', mpi.recv()), 0)
        elif op == 'gather':
            n, cols = c.pick([0, 1, NP - 1, NP, NP + 1, c.i(0, 60)]), c.i(1, 2)
            A = np.arange(n * cols).reshape(n, cols)
            s = mpi.slice_array(A)
            c.check(s.size == 0 or np.shares_memory(s, A), 'view')
            parts = mpi.world.allgather(s)
            c.check(same(np.concatenate(parts), A), 'slices of the ranks in order', [len(p) for p in parts])
            c.check(max(len(p) for p in parts) - min(len(p) for p in parts) <= 1, 'sizes of the slices')
        elif op == 'barrier':
            # nobody leaves before everybody has entered
            t0 = time.monotonic()
            wait = .001 * c.i(1, 6)
            if late == mpi.rank:
                time.sleep(wait)
            t1 = time.monotonic()
            mpi.barrier(c.pick([0, None, 1, .2]))
            t2 = time.monotonic()
            ts = mpi.world.allgather((t1, t2))
            c.check(min(b for a, b in ts) >= max(a for a, b in ts), 'a rank left the barrier before the last one came', ts)
        else:
            with captured() as out:
                mpi.report('said', mine[1])
                mpi.report('err', stderr=True)
                mpi.report('no', Verbosity_Level=7)
                mpi.master_gets_host_names()
            c.check(mpi.is_master_node() == (mpi.rank == 0), 'master')
            if mpi.rank == 0:
                c.check(out.out.startswith('said\n%d\n' % mine[1]) and 'no\n' not in out.out.split('Hostnames')[0], 'report', out.out)
                c.eq(out.err, 'err\n', 'report to stderr')
                c.eq(sorted(mpi.HostNames), list(range(NP)), 'host names of all the nodes')
                c.eq(out.out.count('on machine'), NP, 'host names')
                import socket
                c.check(all(v == socket.gethostname() for v in mpi.HostNames.values()), 'names of the hosts')
            else:
                c.check(out.out == '' and out.err == '', 'only the master reports:', out.out)
        vmon.count('collectives')
        c.nontrivial(op, root, c.index)

    def farm(c):
        farm_case(c, mpi, DistributionOnNodes, DistributionOnNodesOneStack)

    group('collective_%d' % NP, 300, 3000, collective)
    group('farm_%d' % NP, 60, 700, farm)


if NP:
    parallel()
else:
    serial()
vmon.finish()
