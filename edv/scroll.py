"""Scrolling (z, Z, ] and [): pages shown by random scroll sessions against
the lines the state records say the buffer holds, and whole walks through
buffers whose lines fold."""
import random, re

from . import core, run

P = b'\x01\x02'                          # prompt: parts the output
SEP = P.decode()
HOWS = ('scroll', 'walk')

CMD = re.compile(rb'(\d+|\$|\.|)([zZ\[\]])(\d*)([nlp]?)$')


def parts(r):
    return r.stdout.split(P)[1:]


# -- lines narrower than the window ------------------------------------------

ALPHA = b'abcdefghijklmnopqrstuvwxyz0123456789 .,'


def line(R, w):
    return bytes(R.choice(ALPHA) for _ in range(R.randint(0, w)))


class Narrow(object):
    """Session of scroll commands, prints and changes."""

    def __init__(self, s):
        R = random.Random('scroll/%d' % s)
        self.R = R
        self.rows = R.choice([2, 3, 4, 5, 6, 7, 8, 10, 13, 24, 25])
        self.n = R.choice([0, 1, 2, 3, 4, 5, 7, 8, 12, 13, 20, 21, 40, 41, 60, 100])
        self.half = self.rows >= 4
        self.text = [b'%d.' % i + line(R, 30) for i in range(1, self.n + 1)]
        self.cmds = []
        kinds = R.choice(['zZ', 'z', 'Z', 'zZ[]', 'z]', 'Z[', '[]', ']', '['])
        if not self.half:
            kinds = R.choice(['zZ', 'z', 'Z'])
        self.mixed = '[' in kinds or ']' in kinds
        steps = R.choice([.02, .15, .4])
        for i in range(R.randint(4, 30)):
            x = self.other() if R.random() < steps else self.scroll(R.choice(kinds))
            self.cmds.append(x)
        c = run.Case()
        c.files = {b'f': b''.join(t + b'\n' for t in self.text)}
        c.args = ['-s', '-p', SEP, 'f']
        c.env = {'LINES': str(self.rows), 'COLUMNS': str(R.choice([64, 80, 100, 132]))}
        if self.rows in (24, 25) and R.random() < .5:
            # Not a window height: the default.
            c.env['LINES'] = R.choice([None, '', '0', '1', 'x', '-3'])
            self.rows = 24
        c.script = b''.join(x + b'\n' for x in self.cmds) + b'Q\n'
        self.case = c

    def addr(self):
        R = self.R
        n = max(1, self.n)
        return R.choice([b'%d' % R.randint(1, n), b'%d' % R.randint(1, n), b'1', b'$', b'.',
                         b'%d' % min(n, R.randint(1, 2 * self.rows)),
                         b'%d' % max(1, n - R.randint(0, 2 * self.rows)),
                         b'%d' % (n + R.randint(1, 3)), b'0'])

    def scroll(self, c):
        R = self.R
        a = self.addr() if R.random() < .2 else b''
        k = b''
        if R.random() < .1:
            k = b'%d' % (R.choice([4, 5, 6, 8, 9, 14, 30]) if self.half else
                         R.choice([2, 3, 4, 6, 9]))
            if c in 'zZ' and R.random() < .1:
                k = R.choice([b'0', b'1'])
        # (Half pages keep what is on the screen as it is.)
        x = R.choice([b'n', b'l', b'p']) if c in 'zZ' and not self.mixed \
            and R.random() < .15 else b''
        return a + c.encode() + k + x

    def other(self):
        R = self.R
        a = self.addr() if R.random() < .5 else b''
        return R.choice([
            lambda: self.addr(), lambda: a + b'p', lambda: b'1,$p', lambda: b'', lambda: b'.=',
            lambda: a + b'd', lambda: b'a\n-%s\n.' % line(R, 30), lambda: b'i\n-%s\n-%s\n.' % (
                line(R, 30), line(R, 20)),
            lambda: a + b's/.*/new/', lambda: b'1m$', lambda: b'u', lambda: a + b'ka',
            lambda: b'1,3t$', lambda: b'$r f', lambda: b'/[0-9]/', lambda: b'1,$s/[a-c]//'])()


def shown(text, f, l, suf):
    o = []
    w = len(str(len(text)))
    for k in range(f, l + 1):
        t = text[k - 1]
        o.append((b'%*d\t' % (w, k) if suf == b'n' else b'') + t + (b'$' if suf == b'l' else b''))
    return o


def locate(text, got, suf, guess):
    """(first, last) of the run of lines that was shown, or None."""
    n = len(got)
    for f in [guess - n + 1] + list(range(1, len(text) - n + 2)):
        if f >= 1 and f + n - 1 <= len(text) and shown(text, f, f + n - 1, suf) == got:
            return f, f + n - 1
    return None


def narrow_verdict(w, r, cov=None):
    """First disagreement, or None."""
    d = run.crashed(r)
    if d:
        return d[0]
    if r.timeout:
        return 'timeout', 'no exit in time'
    o = parts(r)
    recs = r.records or []
    if len(recs) < len(w.cmds) + 1 or len(o) != len(w.cmds) + 1:
        return 'trace', '%d records, %d outputs of %d commands' % (len(recs), len(o), len(w.cmds))
    rows = w.rows
    page = None                          # (first, last) shown by the previous command
    sized = True
    loose = False                        # Whether pages still follow is not specified.
    for i, (c, x) in enumerate(zip(w.cmds, o)):
        st, af = recs[i], recs[i + 1]
        if i in getattr(w, 'resize', ()):
            sized = sized and rows == w.resize[i]
            rows = w.resize[i]
        m = CMD.match(c)
        if not m:
            # (A command that fails for its address may or may not end a
            # sequence of pages.)
            loose = (loose or page is not None) and x.endswith(b'?\n')
            page = None
            continue
        a, k, cn, suf = m.groups()
        text = list(st.text or ())
        n = len(text)
        where = 'command %d %r (after %r): %d lines, current %d, window %d, page before %s: ' % (
            i + 1, c.decode(), b' | '.join(w.cmds[max(0, i - 4):i]).decode(), n, st.dot, rows, page)
        if st.text is None or af.text != st.text:
            return 'text', where + 'buffer changed'
        err = x == b'?\n'
        A = {b'$': n, b'.': st.dot, b'': None}.get(a, None if not a else 0)
        if A == 0 and a.isdigit():
            A = int(a)
        exp = None
        if A is not None and not 1 <= A <= n:
            exp = 'err'
        elif loose and A is None:
            if cn and (int(cn) > 1 or k in b'[]'):
                return None
        else:
            if cn and 1 < int(cn) and k in b'[]' and n:
                sized = int(cn) == rows
                rows = int(cn)
            if k == b'z':
                f = A or (page[1] + 1 if page else max(1, st.dot))
                if f > n:
                    exp = 'err'
            elif k == b'Z':
                l = A or (page[0] - 1 if page else st.dot)
                if not 1 <= l <= n:
                    exp = 'err'
            elif not n:
                exp = 'err'
            if exp is None and k in b'zZ':
                if cn and 1 < int(cn):
                    rows = int(cn)
                if k == b'z':
                    if f + rows - 2 > n:
                        f = max(1, n - rows + 2)
                else:
                    f = max(1, l - rows + 2)
                exp = (f, min(n, f + rows - 2))
        if err:
            if af.dot != st.dot:
                return 'dot', where + 'failed, current line now %d' % af.dot
            if exp is None and cn:
                return None
            if loose and A is None:
                exp = 'err'
            if exp not in (None, 'err'):
                return 'page', where + 'failed, expected lines %d to %d' % exp
            if exp is None and not (k == b']' and (page is None or page[1] == n)):
                # (Half pages: only the last page has none after it.)
                if not (page is None):
                    return 'page', where + 'failed'
            if cov is not None:
                cov(k.decode() + ' at an end', 1)
            loose = (loose or page is not None) and A is not None
            page = None
            continue
        any_, loose = loose and A is None, False
        got = x.split(b'\n')
        if got[-1:] != [b'']:
            return 'output', where + 'output does not end in a newline'
        got = got[:-1]
        if exp == 'err':
            return 'page', where + 'expected an error, got %d lines' % len(got)
        g = exp if exp and shown(text, exp[0], exp[1], suf) == got else \
            locate(text, got, suf, af.dot)
        if not got or g is None:
            return 'page', where + 'not lines of the buffer in order%s: %r' % (
                ' (expected %d to %d)' % exp if exp else '', got[:60])
        if exp and g != exp:
            return 'page', where + 'showed %d to %d, expected %d to %d' % (g + exp)
        if af.dot != g[1]:
            return 'dot', where + 'showed %d to %d, current line then %d' % (g + (af.dot,))
        if k in b'[]':
            h = min(rows - 1, n)
            if g[1] - g[0] + 1 != h:
                return 'page', where + 'showed %d to %d, window of %d' % (g + (h,))
            if A and not (g[0] <= A <= g[1]):
                return 'page', where + 'showed %d to %d, not the addressed line' % g
            if A and abs(max(1, min(A - (h - 1) / 2, n - h + 1)) - g[0]) > 1.5:
                return 'page', where + 'showed %d to %d, not centered' % g
            if page and A is None and sized and not any_:
                if k == b']' and not (g[0] <= page[1] + 1 and (g[1] > page[1] or page[1] == n)):
                    return 'page', where + 'showed %d to %d: not the next half page' % g
                if k == b'[' and not (g[1] >= page[0] - 1 and (g[0] < page[0] or page[0] == 1)):
                    return 'page', where + 'showed %d to %d: not the previous half page' % g
                if k == b']' and g[1] < n and abs(g[1] - page[1] - (rows - 1) // 2) > 1 \
                   and page[0] > rows:
                    return 'page', where + 'showed %d to %d: not half a page on' % g
        sized = True
        if cov is not None:
            cov('page ' + k.decode(), 1)
            if page:
                cov('page after page', 1)
        page = g
    return None


# -- lines that fold ----------------------------------------------------------

class Walk(object):
    """From one end of the buffer to the other, page by page."""

    def __init__(self, s):
        R = random.Random('walk/%d' % s)
        self.fwd = R.random() < .5
        self.u8 = R.random() < .5
        self.rows = R.choice([2, 3, 4, 5, 6, 7, 10, 24])
        self.cols = R.choice([10, 11, 16, 20, 40, 80])
        n = R.choice([1, 2, 3, 5, 8, 13, 20, 40])
        big = R.choice([.1, .3, .8])
        al = R.choice(['abcdefgh', 'abcdefgh0 _', 'abcd\u00e9', '\u00e9\u00fc\u00e0\u00f1',
                       '\u65e5\u672c\u8a9e', 'a\u00e9 \u65e5', 'abc\u0301d', 'ab\U0001f600']
                      if self.u8 else ['abcdefgh', 'abcdefgh0 _', 'a'])
        c = self.cols
        self.text = []
        for i in range(n):
            l = R.randint(0, 8) if R.random() > big else \
                R.choice([c - 4, c - 3, c - 2, c - 1, c, c + 1, 2 * c, 2 * c - 3, 3 * c + 1,
                          R.randint(1, 6 * c), R.randint(1, c * self.rows * 2)])
            self.text.append(('<%d:' % i + ''.join(R.choice(al) for _ in range(l)) + '>').encode())
        tot = sum(-(-2 * len(t) // c) + 1 for t in self.text)
        self.start = R.choice([None, None, R.randint(1, n)])
        a = b'%d' % (self.start or (1 if self.fwd else n))
        k = b'z' if self.fwd else b'Z'
        self.cmds = [a + k] + [k] * min(2000, tot // max(1, self.rows - 1) + 3)
        q = run.Case(locale='C.UTF-8' if self.u8 else 'C')
        q.files = {b'f': b''.join(t + b'\n' for t in self.text)}
        q.args = ['-s', '-p', SEP, 'f']
        q.env = {'LINES': str(self.rows), 'COLUMNS': str(self.cols)}
        q.script = b''.join(x + b'\n' for x in self.cmds) + b'Q\n'
        self.case = q


def pieces(page, text):
    """Cells a page takes: rows of width cols, for text of one column each."""
    return page.split(b'\n')[:-1]


def walk_verdict(w, r, cov=None):
    d = run.crashed(r)
    if d:
        return d[0]
    if r.timeout:
        return 'timeout', 'no exit in time'
    o = parts(r)[:-1]
    where = '%s from %s, %d lines, window %dx%d: ' % (
        'z' if w.fwd else 'Z', w.start or ('first' if w.fwd else 'last'), len(w.text), w.rows,
        w.cols)
    if b'?\n' not in o:
        return 'walk', where + 'no end after %d pages' % len(o)
    pages = o[:o.index(b'?\n')]
    if not pages:
        return 'walk', where + 'nothing shown'
    if cov is not None:
        cov('pages of walks', len(pages))
    body = [p.replace(b'\n', b'') for p in pages]
    last = body[-1]
    rest = body[:-1]
    if w.fwd:
        full = b''.join(w.text[(w.start or 1) - 1:])
        a = b''.join(rest)
        if not full.startswith(a):
            i = run.first_diff(full, a)
            return 'walk', where + 'pages differ from text at byte %d: %r, expected %r' % (
                i, a[max(0, i - 20):i + 20], full[max(0, i - 20):i + 20])
        if not b''.join(w.text).endswith(last):
            return 'walk', where + 'last page is not the end of the text: %r' % last[-80:]
    else:
        full = b''.join(w.text[:w.start or len(w.text)])
        a = b''.join(reversed(rest))
        if not full.endswith(a):
            return 'walk', where + 'pages differ from text: %r ... of %r' % (
                a[-200:], full[-200:])
        if not b''.join(w.text).startswith(last):
            return 'walk', where + 'last page is not the start of the text: %r' % last[:80]
    if len(a) + len(last) < len(full):
        return 'walk', where + '%d bytes of text not shown' % (len(full) - len(a) - len(last))
    if not w.u8:
        for i, p in enumerate(pages):
            h = sum(max(1, -(-len(x) // w.cols)) for x in p.split(b'\n')[:-1])
            if h > w.rows - 1 or (h < w.rows - 1 and i < len(pages) - 1):
                return 'walk', where + 'page %d of %d has %d rows' % (i + 1, len(pages), h)
    dots = [x.dot for x in (r.records or [])[1:len(pages) + 1]]
    if (w.fwd and dots != sorted(dots)) or (not w.fwd and dots[1:-1] != sorted(dots[1:-1])[::-1]):
        return 'walk', where + 'current lines %s' % dots[:40]
    return None


# -- anything, for the sanitizers ----------------------------------------------

def wild(s):
    R = random.Random('wild/%d' % s)
    n = R.choice([1, 2, 3, 5, 8, 13])
    rows = R.choice([2, 3, 4, 5, 6, 10])
    cols = R.choice([9, 10, 16, 20, 40])
    text = []
    for i in range(n):
        l = R.randint(0, 8) if R.random() < .5 else \
            R.choice([cols - 1, cols, 2 * cols, R.randint(1, 6 * cols),
                      R.randint(1, cols * rows * 2)])
        text.append(bytes(R.choice(b'abc \t\f\b\r\x07\xc3\xa9$\\') for _ in range(l)))
    cmds = []
    for i in range(R.randint(3, 25)):
        x = R.random()
        a = R.choice(['', '', '', '1', '$', '2', '3'])
        if x < .5:
            cmds.append(a + R.choice('zzZZ[]') + R.choice(['', '', '', '3', '5', '2', 'l', 'n', '12l']))
        elif x < .9:
            cmds.append(R.choice(['d', '1d', '$d', '1s/.*/ab/', 's/.*/&&/', 's/.//g',
                                  'a\n%s\n.' % ('x' * R.randint(1, 300)), '1c\nab\n.',
                                  '2c\nzz\n.', 'u', 'u', 'u', '1,$j', '1m$', '1t$', '1,$d', 'E f',
                                  'g/a/z', 'g/b/Z3', 'v/c/s/a/&&/\\\nz']))
        else:
            cmds.append(R.choice(['p', 'l', 'n', '1,$l', '1,$n', '', '1']))
    c = run.Case(locale=R.choice(['C', 'C.UTF-8']))
    c.files = {b'f': b''.join(t + b'\n' for t in text)}
    c.args = ['-s'] + R.choice([[], ['-A'], ['-p', '*']]) + ['f']
    c.env = {'LINES': str(rows), 'COLUMNS': str(cols)}
    c.script = b''.join(x.encode() + b'\n' for x in cmds) + b'Q\n'
    return c


# -- batches -------------------------------------------------------------------

def judge(part, seed, make, verdict, how, variant='asan'):
    ctx = core.CTX
    w = make(seed)
    part.evals += 1
    cov = part.add
    r = run.run(ctx.exe(variant), w.case, ctx.base, timeout=core.CASE_TIMEOUT)
    v = verdict(w, r, cov)
    v = v if v and core.keep(ctx.pid, [v]) else None
    if v:
        r2 = run.run(ctx.exe(variant), w.case, ctx.base, timeout=2 * core.CASE_TIMEOUT)
        v2 = verdict(w, r2)
        if v2 and core.keep(ctx.pid, [v2]):
            part.bads.append(core.Bad(v2[0], '%s: %s' % v2, w.case, seed, variant))
        else:
            part.inconclusive += 1
        return False
    part.seen(w.case.script + w.case.files[b'f'])
    part.add('commands', len(w.cmds))
    part.add('state-records', len(r.records or ()))
    if not part.samples:
        part.samples.append(core.sample_of(w.case, r))
    return True


def narrow_batch(seeds):
    part = core.Part()
    for s in seeds:
        if not judge(part, s, Narrow, narrow_verdict, 'scroll') and part.bads:
            break
    return part


def walk_batch(seeds):
    part = core.Part()
    for s in seeds:
        if not judge(part, s, Walk, walk_verdict, 'walk') and part.bads:
            break
    return part


def wild_batch(seeds, variant='asan'):
    part = core.Part()
    ctx = core.CTX
    for s in seeds:
        c = wild(s)
        part.evals += 1
        bad = None
        for k in range(2):
            r = run.run(ctx.exe(variant), c, ctx.base, timeout=core.CASE_TIMEOUT * (k + 1))
            d = core.keep(ctx.pid, run.crashed(r) +
                          ([('timeout', 'no exit in time')] if r.timeout else []))
            if not d:
                break
            bad = d[0]
        if d:
            part.bads.append(core.Bad(bad[0], '%s: %s' % bad, c, s, variant))
            break
        if bad:
            part.inconclusive += 1
        else:
            part.seen(c.script)
            part.add('wild scroll sessions')
            part.add('state-records', len(r.records or ()))
    return part


def chunks(fn, ctx, n, size, *a):
    s0 = ctx.seed * 10000019
    return [(fn, (range(s0 + i, s0 + min(n, i + size)),) + a) for i in range(0, n, size)]


def wild_jobs(ctx, n, variant='asan'):
    return chunks(wild_batch, ctx, n, 25, variant)


def jobs(ctx):
    q = ctx.tier == 'quick'
    return (chunks(narrow_batch, ctx, 9000 if q else 200000, 20) +
            chunks(walk_batch, ctx, 2500 if q else 50000, 10) +
            wild_jobs(ctx, 2000 if q else 40000))
