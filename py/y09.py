# Y09: captured and redirected output
import vmon, os, sys, io, threading, types, tempfile, ctypes, subprocess, time
from vmon import group
vmon.stage()
with vmon.quiet():
    import triqs.utility.redirect as red
    from triqs.utility.capture_stdout import capture_stdout
libc = ctypes.CDLL(None)
libc.write.argtypes = [ctypes.c_int, ctypes.c_char_p, ctypes.c_size_t]
CHARS = 'abcXYZ 0123456789.,;:%\\\t' + 'äßéλΣω→∞𝔾😀'


def text(c, n):
    return ''.join(c.pick(CHARS) if c.chance(.9) else '\n' for _ in range(n))


# ------------------------------------------------------------------ capture
class Stop(Exception):
    pass


def capture(c):
    """what is printed inside comes out as lines, what is printed outside does not; stdout is put back"""
    real, outer = sys.stdout, io.StringIO()
    prog = []

    def emit():
        t = text(c, c.i(0, 30))
        k = c.i(0, 3)
        if k == 0:
            print(t)
            return t + '\n'
        if k == 1:
            print(t, end='')
            return t
        if k == 2:
            n = c.i(-5, 5)
            print(t, n, sep='|')
            return '%s|%d\n' % (t, n)
        sys.stdout.write(t)
        return t

    def block(depth):
        """runs a program, returns what should have been printed at this level"""
        s = ''
        for _ in range(c.i(0, 5)):
            k = c.i(0, 5) if depth < 3 else 0
            if k < 3:
                s += emit()
            else:
                inner(depth + 1)
        return s

    def inner(depth):
        cap = capture_stdout()
        want = []
        before = sys.stdout
        for _ in range(c.pick([1, 1, 1, 2])):                  # the same object again: appended
            fail, s = c.chance(.2), ''
            prog.append('>' * depth + ('!' if fail else ''))
            try:
                with cap as got:
                    c.check(got is cap, 'the context is another object')
                    c.check(sys.stdout is not before, 'stdout is not captured')
                    s = block(depth)
                    if fail:
                        raise Stop()
                c.check(not fail, 'the exception was swallowed')
            except Stop:
                c.check(fail, 'exception')
            c.check(sys.stdout is before, 'stdout was not put back')
            lines = s.split('\n')
            want += lines[:-1] if lines[-1] == '' else lines
        c.check(isinstance(cap, list), 'not a list')
        c.eq([x for x in cap], want, 'captured lines')
        vmon.count('captured_lines', len(want))
    sys.stdout = outer
    try:
        want = block(0)
        inner(1)
        want += emit()
        got = outer.getvalue()
        same = sys.stdout is outer
    finally:
        sys.stdout = real
    c.trace(*prog)
    c.check(same, 'stdout was not put back')
    c.eq(got, want, 'output outside of the captures')
    c.nontrivial(want, *prog)


# ------------------------------------------------------------------ redirect
class screen:
    """where Python prints: takes text only, as a text stream does"""
    def __init__(self):
        self.parts = []

    def write(self, t):
        if not isinstance(t, str):
            raise TypeError('write() argument must be str, not %s' % type(t).__name__)
        self.parts.append(t)
        return len(t)

    def flush(self):
        pass


def put(b):
    while b:
        b = b[os.write(1, b):]


def open_fds():
    return sorted(os.listdir('/proc/self/fd'), key=int)


def redirect(c):
    """a history of starts, stops and output, the terminal being a file"""
    tick = c.pick([.001, .01, .03])
    sleep = time.sleep
    red.time = types.SimpleNamespace(sleep=lambda s: sleep(tick))
    term, scr = tempfile.TemporaryFile(), screen()
    keep, real = os.dup(1), sys.stdout
    want_term, want_scr, hist, on, concurrent = b'', '', [], False, []
    try:
        os.dup2(term.fileno(), 1)
        ino = os.fstat(1).st_ino
        fds = len(open_fds())
        sys.stdout = scr
        for _ in range(c.i(3, 12)):
            k = c.pick(['start', 'stop', 'write', 'write', 'write', 'big', 'split', 'c', 'child', 'wait', 'threads'])
            hist.append(k)
            if k == 'start':
                n = len(scr.parts)
                red.start_redirect()
                if on:
                    c.check(any('lready' in p for p in scr.parts[n:]), 'a second start is not reported')
                    scr.parts[n:] = [p for p in scr.parts[n:] if 'lready' not in p and p != '\n'] if len(scr.parts) - n <= 2 else scr.parts[n:]
                    hist.append('again')
                    if len(scr.parts) - n > 0:                   # output arrived in between: not told apart from the message
                        concurrent.append('mixed')
                    break
                on = True
                c.check(os.fstat(1).st_ino != ino, 'stdout is not redirected')
            elif k == 'stop':
                red.stop_redirect()
                if on:
                    c.check(os.fstat(1).st_ino == ino, 'stdout is not put back')
                    if not concurrent:
                        c.eq(''.join(scr.parts), want_scr, 'output at the end of the redirection')
                on = False
            elif k == 'wait':
                sleep(c.r(0, .05))
            else:
                if k == 'threads':
                    m, ln = c.i(2, 3), [[text(c, c.i(1, 40)).replace('\n', ' ') for _ in range(c.i(1, 60))] for _ in range(3)]

                    def work(j):
                        for x in ln[j]:
                            put(('#%d#%s\n' % (j, x)).encode())
                    if not concurrent and not (want_scr + want_term.decode()).endswith('\n'):
                        put(b'\n')
                        if on:
                            want_scr += '\n'
                        else:
                            want_term += b'\n'
                    th = [threading.Thread(target=work, args=(j,)) for j in range(m)]
                    [t.start() for t in th]
                    [t.join() for t in th]
                    concurrent.append((on, m, ln))
                    break
                if k == 'write':
                    t = text(c, c.i(0, 50))
                    put(t.encode())
                elif k == 'big':
                    t = text(c, 200) * c.i(50, 400)
                    put(t.encode())
                elif k == 'split':                               # a character in two pieces
                    t = text(c, 5) + c.pick('äλ→𝔾😀') + text(c, 5)
                    b = t.encode()
                    j = c.i(1, len(b) - 1)
                    put(b[:j])
                    sleep(c.pick([0, tick, 3 * tick]))
                    put(b[j:])
                elif k == 'c':
                    t = text(c, c.i(1, 50))
                    b = t.encode()
                    libc.write(1, b, len(b))
                else:
                    t = text(c, 20).replace('%', '').replace('\\', '')
                    subprocess.run(['/bin/sh', '-c', 'printf %s "$0"', t], check=True)
                if on:
                    want_scr += t
                else:
                    want_term += t.encode()
                vmon.count('bytes', len(t.encode()))
        c.trace(*hist, tick)
        red.stop_redirect()
        restored = os.fstat(1).st_ino == ino
        nfds = len(open_fds())
        put(b'END')
        term.seek(0)
        got_term, got_scr = term.read(), ''.join(scr.parts)
    finally:
        sys.stdout = real
        if red.started:
            red.stop_redirect()
        os.dup2(keep, 1)
        os.close(keep)
        term.close()
    c.check(restored, 'stdout is not put back')
    c.check(got_term.endswith(b'END'), 'output after the end of the redirection is lost')
    got_term = got_term[:-3]
    c.check(nfds <= fds, nfds - fds, 'file descriptors more than before')
    if concurrent == ['mixed']:
        pass
    elif concurrent:
        on, m, ln = concurrent[0]
        got, want = (got_scr, want_scr) if on else (got_term.decode(), want_term.decode())
        other = (got_term.decode(), want_term.decode()) if on else (got_scr, want_scr)
        c.eq(other[0], other[1], 'the other stream')
        c.check(got.startswith(want), 'output before the threads', repr(got[:200]), repr(want[:200]))
        tail = got[len(want):].split('\n')
        c.check(tail[-1] == '', 'last line cut')
        for j in range(m):
            mine = [x[len('#%d#' % j):] for x in tail if x.startswith('#%d#' % j)]
            c.eq(mine, ln[j], 'lines of thread %d' % j)
        c.check(len(tail) - 1 == sum(len(x) for x in ln[:m]), 'lines that nobody wrote')
        vmon.count('concurrent_lines', len(tail) - 1)
    else:
        c.eq(got_scr, want_scr, 'redirected output')
        c.eq(got_term.decode(), want_term.decode(), 'output outside of the redirection')
    c.nontrivial(hist, want_scr[:50], len(want_scr), len(want_term))


group('capture', 1500, 20000, capture)
group('redirect', 240, 3000, redirect)
vmon.finish()
