"""Sessions typed at a terminal: a pseudo terminal is standard input, and
its window may change size between commands.

What a terminal may change is what the manual says and nothing else: the
window is as large as the terminal, unless LINES and COLUMNS say otherwise, and
follows it when it changes.  So model sessions must do there what they do from
a pipe, printed lines fold where the window ends, and pages have its height."""
import fcntl, os, random, re, select, signal, struct, termios, threading, time

from . import core, diff, gen, model, pages, profiles, rx, scroll

MARK = b'\x01\x02'
FILE_END = re.compile(rb'(?s)(.)\x04')


def size(fd, rows, cols):
    fcntl.ioctl(fd, termios.TIOCSWINSZ, struct.pack('HHHH', rows, cols, 0, 0))


def pair(rows, cols):
    """(master, slave): lines as typed, no echo, no keys but end of file."""
    m, s = os.openpty()
    a = termios.tcgetattr(s)
    a[0] = a[1] = 0
    a[3] = termios.ICANON
    a[6] = [b'\0'] * len(a[6])
    a[6][termios.VEOF] = b'\x04'
    termios.tcsetattr(s, termios.TCSANOW, a)
    size(m, rows, cols)
    os.set_blocking(m, False)
    return m, s


def suits(script):
    """Whether a terminal can pass it on as it is."""
    return b'\0' not in script and all(x in b'\n\x04' for x in FILE_END.findall(script)) and \
        max(len(l) for l in script.split(b'\n')) < 4000


def talk(p, master, case, timeout):
    """Type the script; stdout and stderr, None on timeout."""
    out, err, last = bytearray(), bytearray(), time.time() + timeout

    def reader(f, b):
        while True:
            x = os.read(f.fileno(), 65536)
            if not x:
                break
            b.extend(x)
    th = [threading.Thread(target=reader, args=x, daemon=True) for x in ((p.stdout, out), (p.stderr, err))]
    for t in th:
        t.start()

    def type_(b):
        while b and p.poll() is None:
            if time.time() > last:
                return
            if select.select([], [master], [], .05)[1]:
                try:
                    n = os.write(master, b[:1024])
                except BlockingIOError:
                    time.sleep(.001)
                    continue
                except OSError:
                    return
                b = b[n:]
    rows, cols, events = case.tty
    at = 0
    for off, seen, r, c in events:
        type_(case.script[at:off])
        at = off
        while out.count(MARK) < seen and p.poll() is None and time.time() < last:
            time.sleep(.0005)
        size(master, r, c)
        if p.poll() is None:
            os.kill(p.pid, signal.SIGWINCH)
    type_(case.script[at:])
    while p.poll() is None and time.time() < last:
        type_(b'\x04')
        try:
            p.wait(.02)
        except Exception:
            pass
    ok = p.poll() is not None
    if not ok:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
    for t in th:
        t.join(5)
    return bytes(out), bytes(err), ok


# -- model sessions ------------------------------------------------------------

class Typed(gen.Gen):
    """Ends of file between the lines."""

    def maker(self, **kw):
        m = model.Ed(**kw)
        m.tty = True
        return m

    def twist(self, u):
        r = self.r
        x = r.random()
        if x < .04:
            return b'\x04' + u
        if x < .1:
            k = [i for i in range(len(u)) if u[i] == 10]
            if k:
                i = r.choice(k) + 1
                return u[:i] + b'\x04' + u[i:]
        return u


def session(seed, name='MIX'):
    r = random.Random('term/%s/%d' % (name, seed))
    pr = profiles.P[name]
    w, vs, _ = r.choices(pr['profiles'], [p[2] for p in pr['profiles']])[0]
    v = r.choice(vs)
    rows, cols = r.choice([(24, 80), (24, 80), (5, 20), (40, 132), (13, 33), (3, 10)])
    env = dict(v['env'])
    k = r.random()
    wr, wc = rows, cols
    if k < .2:
        env['LINES'], env['COLUMNS'] = '11', '40'
        wr, wc = 11, 40
    elif k < .3:
        rows, cols, wr, wc = 0, 0, 24, 80
    elif k < .4:
        env['COLUMNS'] = '44'
        wc = 44
    g = Typed(r.randrange(1 << 60), w, **dict(v['gen'], longlines=0))
    files = dict(profiles.BASE)
    diff.vary(r, files, v)
    files.update(v['files'] or {})
    c = g.case(r.randint(10, 40), files=files, args=v['args'],
               mopts=dict(v['mopts'], rows=wr, cols=wc), locale=v['locale'], env=env)
    c.argv0 = v['argv0']
    c.tty = [rows, cols, []]
    return c


def session_batch(seeds, name='MIX', variant='asan'):
    part = core.Part()
    for s in seeds:
        c = session(s, name)
        if not suits(c.script):
            part.add('terminal-unsuited')
            continue
        r = core.run_case(part, c, s, variant)
        if part.bads:
            break
        part.seen(c.script)
        part.add('terminal-sessions')
        part.add('ends-of-file-typed', c.script.count(b'\x04'))
        part.add('commands', c.cmds)
        part.add('state-records', len(r.records or ()))
    return part


# -- windows that change -------------------------------------------------------

def lines(seed):
    """Lines printed in a window that changes: model decides."""
    R = random.Random('termlines/%d' % seed)
    locale = R.choice(['C', 'C.UTF-8'])
    names = R.sample(sorted(pages.ALPHA), R.randint(1, 2))
    al = [x for x in sum((pages.ALPHA[k] for k in names), []) if x != b'\0']
    sz = lambda: (R.choice([2, 3, 5, 8, 24, 50]), R.choice([9, 10, 17, 24, 40, 80, 132]))
    rows, cols = wr, wc = sz()
    env = {}
    if R.random() < .2:
        wc = R.choice([20, 60])
        env['COLUMNS'] = str(wc)
    n = R.randint(1, 30)
    text = [b''.join(R.choice(al) for _ in range(R.choice([R.randint(0, 8), R.randint(0, 200)])))
            for _ in range(n)]
    files = {b'f': b''.join(t + b'\n' for t in text)}
    rx.set_locale(locale)
    m = model.Ed(files={k: model.File(v) for k, v in files.items()}, locale=locale, rows=wr, cols=wc,
                 prompt=MARK)
    script, events = [], []
    n0 = 0
    try:
        for i in range(R.randint(3, 12)):
            a = R.randint(1, n)
            b = R.choice([a, n, R.randint(a, n)])
            x = b'r f\n' if not i else b'%d,%d%s\n' % (a, b, R.choice([b'l', b'l', b'l', b'n', b'p', b'nl']))
            if i and R.random() < .4:
                r, c = sz()
                if R.random() < .2:          # (Not a window.)
                    r, c = R.choice([(0, 0), (1, 5), (1, 8)])
                    events.append([n0, m.cmds + 1, r, c])
                else:
                    events.append([n0, m.cmds + 1, r, c])
                    m.rows, m.cols = r, c
            m.feed(x)
            script.append(x)
            n0 += len(x)
        m.feed(b'Q\n')
        script.append(b'Q\n')
    except model.Unspec:
        return None
    c = scroll.run.Case(b''.join(script), ['-s', '-p', MARK.decode()], env, files, locale)
    c.stdout = b''.join(m.out)
    c.records, c.texts = list(m.records), list(m.texts)
    c.out_files = {k: v.data for k, v in m.files.items()}
    c.exit, c.cmds = m.exited, m.cmds
    c.tty = [rows, cols, events]
    return c


def lines_batch(seeds, variant='asan'):
    part = core.Part()
    for s in seeds:
        c = lines(s)
        if c is None or not suits(c.script):
            part.add('terminal-unsuited')
            continue
        r = core.run_case(part, c, s, variant)
        if part.bads:
            break
        part.seen(c.script + repr(c.tty).encode())
        part.add('window-changes', len(c.tty[2]))
        part.add('state-records', len(r.records or ()))
    return part


def narrow(seed):
    """Scroll session in a terminal that changes its size."""
    w = scroll.Narrow(seed)
    R = random.Random('termscroll/%d' % seed)
    off, events, w.resize = 0, [], {}
    for i, x in enumerate(w.cmds):
        # (Half pages after a change of size are not specified.)
        if i and not w.mixed and R.random() < .15:
            r, c = R.choice([4, 5, 6, 7, 9, 14, 30, 24] if w.half else [2, 3, 4, 9]), R.choice([64, 80, 100])
            if R.random() < .15:
                events.append([off, i + 1, R.choice([0, 1]), c])
            else:
                events.append([off, i + 1, r, c])
                w.resize[i] = r
        off += len(x) + 1
    rows = w.rows
    if R.random() < .7:
        w.case.env.pop('LINES', None)
        w.case.env.pop('COLUMNS', None)
    elif (w.case.env.get('LINES') or 'x').isdigit() and int(w.case.env['LINES']) > 1:
        rows = R.choice([10, 24])
    w.case.tty = [rows, 80, events]
    return w


def narrow_batch(seeds):
    part = core.Part()
    for s in seeds:
        if not scroll.judge(part, s, narrow, scroll.narrow_verdict, 'scroll') and part.bads:
            break
        part.add('terminal-sessions')
    return part


def jobs(ctx, fn, n, size=10, *a):
    s0 = ctx.seed * 10000019 + 3000000
    return [(fn, (range(s0 + i, s0 + min(n, i + size)),) + a) for i in range(0, n, size)]
