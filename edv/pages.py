"""Printing many lines, and lines longer than a window: `p', `n' and `l'
go through the frame buffer of the scroll commands a page at a time, but
what they print does not depend on it.  Windows of every size."""
import random

from . import core, model, run, rx

OPTS = [([], {}, {}), (['-G'], dict(trad=True), {}), (['-R'], {}, {}), (['-v'], dict(verbose=True), {}),
        ([], dict(posix=True), dict(POSIXLY_CORRECT='1'))]
ALPHA = {
    'plain': [b'a', b'b', b' ', b'c'],
    'feeds': [b'a', b'\f', b'\f', b' ', b'bc'],
    'controls': [b'a', b'\t', b'\b', b'\f', b'\r', b'\x07', b'\v', b'\x1b', b'\x7f', b'x'],
    'colours': [b'a', b'\x1b[1m', b'\x1b[m', b'\x1b[38;5;1m', b'\x1b[', b'z', b'\f'],
    'list': [b'\\', b'$', b'a', b'\t', b'\x01', b'-', b' ', b'9'],
    'wide': ['\u00e9'.encode(), '\u4e2d'.encode(), b'a', '\U0001d54f'.encode(), 'e\u0301'.encode()],
    'broken': [b'\xff', b'\xc3', b'\xe4\xb8', b'a', '\u4e2d'.encode(), b'\x80', b'\0'],
}


def pages(s):
    R = random.Random('pages/%s' % s)
    rows = R.choice([2, 3, 4, 5, 8, 13, 24, 24, 24])
    cols = R.choice([9, 10, 17, 24, 33, 40, 80, 80, 132])
    opts, mopts, env = R.choice(OPTS) if R.random() < .5 else OPTS[0]
    names = R.sample(sorted(ALPHA), R.randint(1, 3))
    parts = sum((ALPHA[k] for k in names), [])
    locale = R.choice(['C', 'C.UTF-8'])
    n = R.choice([1, 2, rows - 1, rows, rows + 1, 2 * rows, R.randint(1, 5 * rows), 9, 10, 99, 100])
    text = []
    for _ in range(n):
        k = R.random()
        if k < .25:
            w = R.randint(0, 4)
        elif k < .5:
            w = R.choice([cols - 9, cols - 8, cols - 1, cols, cols + 1, 2 * cols])
        elif k < .92:
            w = R.randint(0, 2 * cols)
        else:
            w = R.randint(0, cols * rows * 2)
        text.append(b''.join(R.choice(parts) for _ in range(max(0, w))))
    cmds = [b'r f\n']
    for _ in range(R.randint(2, 8)):
        c = R.choice([b'p', b'p', b'p', b'n', b'n', b'l', b'l', b'pn', b'nl', b'pl', b'lpn', b''])
        a = R.randint(1, n)
        b = R.choice([a, n, R.randint(a, n), min(n, a + rows - 1), min(n, a + rows - 2)])
        k = R.random()
        if not c or k < .1:
            t = b'%d' % a
        elif k < .4:
            t = b','
        else:
            t = b'%d,%d' % (a, b)
        cmds.append(t + c + b'\n')
        k = R.random()
        if k < .08:
            cmds.append(b'%da\n%s\n.\n' % (a, text[0].replace(b'\0', b'') or b'x'))
        elif k < .12:
            cmds.append(b'g/./%s\n' % R.choice([b'p', b'n', b'l', b'-n', b'+-l']))
        elif k < .16:
            cmds.append(b'%dt%d%s\n' % (a, b, R.choice([b'p', b'n', b'l'])))
    cmds.append(b'Q\n')
    env = dict(env, LINES=str(rows), COLUMNS=str(cols))
    files = {b'f': b''.join(t + b'\n' for t in text)}
    c = run.Case(b''.join(cmds), ['-s'] + opts, env, dict(files), locale)
    rx.set_locale(locale)
    m = model.Ed(files={k: model.File(v) for k, v in files.items()}, locale=locale,
                 rows=rows, cols=cols, **mopts)
    try:
        m.feed(b"".join(cmds))
    except model.Unspec:
        return None
    if m.exited is None:
        m.finish()
    c.stdout = b''.join(m.out)
    c.records = list(m.records)
    c.texts = list(m.texts)
    c.out_files = {k: v.data for k, v in m.files.items()}
    c.exit = m.exited
    c.cmds = m.cmds
    return c


def batch(seed, n, variant='asan'):
    part = core.Part()
    for s in range(seed, seed + n):
        c = pages(s)
        if c is None:
            part.add('unspecified')
            continue
        part.seen(('pages %d' % s).encode())
        core.run_case(part, c, s, variant)
        if len(part.bads) >= 3:
            break
    return part


def jobs(ctx, n, variant='asan'):
    base = ctx.seed * 1000000 + 31
    k = 50
    return [(batch, (base + i, min(k, n - i), variant)) for i in range(0, n, k)]
