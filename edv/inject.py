"""Signals and faults at chosen points of one command of a session.

A session is composed against the reference model, which also says which
buffers each command passes through.  A first run tells how many points
(edges of the editor's code, library calls) each command has; then the
session is run up to and including one command with a signal raised, or
a call failed, at a chosen point of that command, followed by a short
epilogue that shows what is left."""
import random

from . import core, gen, profiles, run
from .run import Case

SIGHUP, SIGINT, SIGQUIT = 1, 2, 3
W = dict(a=5, i=2, c=2, d=3, j=2, m=4, t=3, k=1, mark_use=.5, u=2, p=2, search=1, s=5, s_rep=1,
         g=4, w=2, r=2, e=1, reg_w=2, reg_r=2, reg_rr=.5, mac_def=.3, mac_run=1, filter=1, rsh=.5,
         wsh=.3, bad=.3, h=.3)
VARS = [dict(args=['-s'], mopts={}), dict(args=[], mopts={}),
        dict(args=['-v'], mopts=dict(verbose=True)), dict(args=['-s', '-E'], mopts=dict(ere=True)),
        dict(args=['-s', '-G'], mopts=dict(trad=True))]
CLASSES = ('bb', 'calls', 'm', 'f', 'o', 'p', 'r', 's')


def session(seed, w=W, units=(3, 14), files=None, **opt):
    """A session with the steps of its commands."""
    r = random.Random('inject/%d' % seed)
    v = r.choice(VARS)
    fl = dict(profiles.BASE)
    fl[b'f3'] = b''.join(b'line %d of f3\n' % i for i in range(r.randint(5, 40)))
    fl.update(files or {})
    # (A buffer just written shows whether changes are marked as such.)
    clean = r.random() < .5
    g = gen.Gen(r.randrange(1 << 60), w, steps=True, odd=.02, u8=.02, longlines=.03,
                probe=.5 if clean else 0, clean=clean, **opt)

    def start(g):
        yield b'a\n' + b''.join(g.line() + b'\n' for _ in range(r.randint(1, 12))) + b'.\n'
    c = g.case(r.randint(*units), files=fl, args=v['args'], mopts=v['mopts'], start=start,
               end=[b'Q\n'])
    c.g = g
    c.rng = r
    return c


def boundaries(r):
    """Points passed when each state record was made."""
    out = []
    for l in r.shim:
        if l[0] == 'R':
            out.append([int(l[2]), int(l[3])] + [int(x[1:]) for x in l[4:10]])
    return out


def prefix(c, i, epilogue=b''):
    """The session up to and including command I."""
    s = b''.join(b''.join(t) for t in c.texts[:i + 1]) + epilogue
    return Case(s, c.args, c.env, c.files, c.locale)


def common(a, b):
    n = min(len(a), len(b))
    p = 0
    while p < n and a[p] == b[p]:
        p += 1
    q = 0
    while q < n - p and a[-1 - q] == b[-1 - q]:
        q += 1
    return p, q


def between(x, s, t, p=None, q=None):
    """Is buffer X between consecutive buffers S and T: equal to them in the
    first P and last Q lines, made of their lines elsewhere?"""
    if x == s or x == t:
        return True
    if p is None:
        p, q = common(s, t)
    if len(x) < p + q or x[:p] != s[:p] or (q and x[-q:] != s[-q:]):
        return False
    pool = {}
    for l in s[p:len(s) - q]:
        pool[l] = pool.get(l, 0) + 1
    for l in t[p:len(t) - q]:
        pool[l] = pool.get(l, 0) + 1
    for l in x[p:len(x) - q]:
        if not pool.get(l):
            return False
        pool[l] -= 1
    return True


def path(c, i):
    """Buffers command I passes through, first to last."""
    s = [(c.records[i][5], None, None)] + list(c.steps[i])
    if i + 1 < len(c.records):
        s.append((c.records[i + 1][5], None, None))
    return s


def on_path(x, s):
    return any(between(x, s[k][0], *s[k + 1]) for k in range(len(s) - 1))


def kind(c, i):
    return b''.join(c.texts[i])


def image(t):
    return b''.join(l + b'\n' for l in t)


def targets(c, b):
    """Commands of the session worth a signal, with weights."""
    out = []
    for i in range(len(c.texts) - 1):
        if i + 1 < len(b) and i + 1 < len(c.records) and b[i + 1][0] > b[i][0]:
            out.append((i, 1 + 4 * (len(c.steps[i]) > 0) + 4 * (len(c.steps[i]) > 2)))
    return out


def pick(r, lo, hi):
    return r.randint(lo + 1, hi)


def misuse(r):
    """Reports of the shim itself."""
    return [('reentry', ' '.join(l)) for l in r.shim if l[0] == 'B']


def sig_batch(signo, seeds, per=8, calls=.25, variant='fault'):
    part = core.Part()
    ctx = core.CTX
    exe = ctx.exe(variant)
    for s in seeds:
        c = session(s)
        rng = c.rng
        part.dropped += c.g.dropped
        prof = run.run(exe, prefix(c, len(c.texts) - 1), ctx.base, timeout=core.CASE_TIMEOUT, shim={})
        b = boundaries(prof)
        tg = targets(c, b)
        if not tg:
            part.add('sessions-without-target')
            continue
        for _ in range(per):
            i, = rng.choices([t[0] for t in tg], [t[1] for t in tg])
            col = 1 if rng.random() < calls else 0
            if b[i + 1][col] <= b[i][col]:
                col = 0
            n = pick(rng, b[i][col], b[i + 1][col])
            sh = {'ED_SHIM_CALL' if col else 'ED_SHIM_BB': '%d:%d' % (n, signo)}
            if signo == SIGINT and rng.random() < .4:
                sh['ED_SHIM_AGAIN'] = str(signo)
            u = rng.random()
            if signo == SIGHUP and u < .3:
                sh['ED_SHIM_THEN'] = '%d:%d' % (int(2 ** rng.uniform(0, 9)) - 1, SIGINT)
            elif signo == SIGHUP and u < .45 and len(c.texts[i]) == 1:
                k = 'ED_SHIM_CALL' if col else 'ED_SHIM_BB'
                sh = {k: '%d:%d' % (n, SIGINT),
                      'ED_SHIM_THEN': '%d:%d' % (int(2 ** rng.uniform(0, 5)) - 1, SIGHUP)}
            elif signo == SIGINT and u < .15 and 'ED_SHIM_AGAIN' not in sh:
                sh['ED_SHIM_THEN'] = '%d:%d' % (int(2 ** rng.uniform(0, 6)) - 1, SIGINT)
            if signo == SIGHUP and rng.random() < .5:
                sh['place'] = rng.randrange(len(PLACES))
            one(part, c, i, signo, sh, s, variant)
            if part.bads:
                return part
    return part


def one(part, c, i, signo, sh, seed, variant):
    ctx = core.CTX
    f = {SIGHUP: hup, SIGINT: intr, SIGQUIT: quit_}[signo]
    r, d = f(c, i, sh, ctx.exe(variant), ctx.base)
    d = core.keep(ctx.pid, d)
    part.evals += 1
    what = kind(c, i)
    part.add('command:' + ''.join(chr(x) for x in what.split(b'\n')[0][-1:] if 32 < x < 127))
    if any(l[0] == 'A' for l in r.shim):
        part.add('signal-again')
    if any(l[0] == 'T' for l in r.shim):
        part.add('second-signal')
    if any(l[0] == 'S' for l in r.shim):
        part.add('signal-in:' + [l[1] for l in r.shim if l[0] == 'S'][0])
        part.seen(what + repr((c.records[i], sh)).encode())
    if d:
        for _ in range(3):
            r2, d2 = f(c, i, sh, ctx.exe(variant), ctx.base)
            d2 = core.keep(ctx.pid, d2)
            if d2:
                bad = core.Bad(d2[0][0], 'signal %d at %s in command %d %r (session %d): %s' % (
                    signo, sh, i, what[:200], seed, '; '.join('%s: %s' % x for x in d2)),
                    prefix(c, i), seed, variant, extra=dict(how=f.__name__, cmd=i, shim=sh))
                part.bads.append(bad)
                return
        part.inconclusive += 1


def intr(c, i, sh, exe, base):
    """Interrupt, then undo (if the command is a single line), write and quit."""
    what = kind(c, i)
    u = len(c.texts[i]) == 1
    e = b'u\nw OUT\nq\nq\nQ\n' if u else b'.\nQ\n'
    pc = prefix(c, i, e)
    r = run.run(exe, pc, base, timeout=core.CASE_TIMEOUT, shim=sh)
    d = run.crashed(r) + misuse(r)
    if r.timeout:
        return r, d + [('timeout', 'no exit')]
    if r.left and r.exit >= 0:
        d.append(('scratch', 'scratch files left: %r' % r.left))
    recs = r.records
    if recs is None:
        return r, d
    bad = [x for x in recs if not x.ok]
    if bad:
        return r, d + [('lines', 'inconsistent line list after record %d' % bad[0].seq)]
    if r.exit < 0 or r.san:
        return r, d
    # The records before the signal are as ever.
    for k in range(min(i + 1, len(recs))):
        if recs[k].key() != c.records[k]:
            return r, d                  # not this check's business
    if len(recs) < i + 2:
        return r, d + [('exit', 'ended with status %r in interrupted command' % r.exit)]
    x = recs[i + 1]
    B, A = c.records[i], c.records[i + 1]
    st = path(c, i)
    if not on_path(x.text, st):
        d.append(('buffer', 'after interrupt buffer is %s; before %s, command makes %s' % (
            run.short(x.text), run.short(B[5]), run.short([y[0] for y in st[1:]], 600))))
    elif x.text != B[5] and not x.modified and A[2]:
        d.append(('modified', 'interrupted change is not marked as modification'))
    if r.stdout.count(b'?\n') == 0 and x.key() != A:
        d.append(('silent', 'interrupted without `?\''))
    if any(l[0] == 'S' and l[-1] == 'part' for l in r.shim):
        u = False
    k = i + 2
    t = after(r, 'T')
    if t is not None and t > i + 1:
        # (Later commands were interrupted.)
        return r, d
    if u and after(r, 'A') == k and len(recs) > k:
        # Once more, while waiting for the next command.
        y = recs[k]
        if not y.status or (y.text, y.dot, y.modified) != (x.text, x.dot, x.modified):
            d.append(('again', 'second interrupt, while reading a command: status %r, buffer %s was %s' % (
                y.status, run.short(y.text), run.short(x.text))))
        k += 1
    if u and x.text != B[5] and len(recs) > k and not d and undoable(what):
        y = recs[k]
        if y.text != B[5]:
            d.append(('undo', 'undo after interrupted %r gives %s, before it was %s (interrupted at %s)' % (
                what, run.short(y.text), run.short(B[5]), run.short(x.text))))
    if not u:
        # (The rest of its text was taken as commands.)
        return r, d
    # What was written is what was there.
    last = recs[-1]
    out = r.files.get(b'OUT')
    if out is None:
        d.append(('write', 'later write did not work'))
    elif last.text is not None and out != image(last.text) and not binary(out, last.text):
        d.append(('write', 'file has %s, buffer %s' % (run.short(out), run.short(last.text))))
    return r, d


def after(r, tag):
    """Number of state records before this event."""
    n = 0
    for l in r.shim:
        if l[0] == tag:
            return n
        n += l[0] == 'R'
    return None


def binary(out, text):
    return out + b'\n' == image(text)


def undoable(what):
    """Commands `u' takes back."""
    l = what.split(b'\n')[0].strip()
    return not any(k in l for k in (b'u', b'e', b'E', b'Q', b'q', b'@'))


# Where a hang-up can save the buffer: files beforehand, HOME, file expected.
PLACES = [({}, None, b'ed.hup'), ({}, None, b'ed.hup'),
          ({b'ed.hup': b'former contents\nof the file\n' * 400}, None, b'ed.hup'),
          ({b'ed.hup': None, b'h': None}, 'h', b'h/ed.hup'),
          ({b'ed.hup': None, b'h': None}, 'h/', b'h/ed.hup'),
          ({b'ed.hup': None}, None, None), ({b'ed.hup': None}, 'nowhere', None),
          ({b'h': None}, 'h', b'ed.hup')]


def hup(c, i, sh, exe, base):
    """Hang up."""
    files, home, where = PLACES[sh.get('place', 0)]
    pc = prefix(c, i, b'.\n' * 2)
    pc.files = dict(pc.files, **{})
    pc.files.update(files)
    if home is not None:
        pc.env = dict(pc.env, HOME=home)
    r = run.run(exe, pc, base, timeout=core.CASE_TIMEOUT,
                shim={k: v for k, v in sh.items() if k != 'place'})
    d = run.crashed(r) + misuse(r)
    if r.timeout:
        return r, d + [('timeout', 'no exit after hang-up')]
    if r.left and r.exit >= 0:
        d.append(('scratch', 'scratch files left: %r' % r.left))
    recs = r.records
    if recs is None or r.exit < 0 or r.san or not any(l[0] == 'S' for l in r.shim):
        return r, d
    first = any(v.endswith(':%d' % SIGHUP) for k, v in sh.items() if k in ('ED_SHIM_BB', 'ED_SHIM_CALL'))
    if not first and (not any(l[0] == 'T' for l in r.shim) or any(l[-1] == 'part' for l in r.shim if l[0] == 'S')):
        return r, d
    for k in range(min(i + 1, len(recs))):
        if recs[k].key() != c.records[k]:
            return r, d
    st = path(c, i)
    if len(recs) > i + 2:
        d.append(('exit', 'went on after hang-up'))
    elif r.exit != 2:
        d.append(('exit', 'status %d after hang-up' % r.exit))
    out = r.files.get(where) if where else None
    if out is None or out == files.get(where):
        if where and not any(x == () for x, _, _ in st):
            d.append(('hup', 'no ed.hup; status %r, stderr %r' % (r.exit, r.stderr[-200:])))
        return r, d
    if not any(out == image(x) for x, _, _ in st):
        t = tuple(out.split(b'\n')[:-1]) if out.endswith(b'\n') else None
        if t is None or not on_path(t, st):
            d.append(('hup', 'ed.hup has %s; buffer before was %s, command makes %s' % (
                run.short(out), run.short(st[0][0]), run.short([y[0] for y in st[1:]], 600))))
    return r, d


def quit_(c, i, sh, exe, base):
    """SIGQUIT changes nothing."""
    r = run.run(exe, prefix(c, len(c.texts) - 1), base, timeout=core.CASE_TIMEOUT, shim=sh)
    d = run.crashed(r)
    if not d and not r.timeout and any(l[0] == 'S' for l in r.shim):
        if r.records and [x.key() for x in r.records[:len(c.records)]] != c.records:
            d.append(('quit', 'SIGQUIT changes what commands do'))
        elif c.exit is not None and r.exit != c.exit:
            d.append(('quit', 'status %d after SIGQUIT' % r.exit))
    return r, d


FAIL = dict(m=3, f=4, o=1, p=1, r=1, s=1)


def fail_batch(seeds, per=8, variant='fault'):
    part = core.Part()
    ctx = core.CTX
    exe = ctx.exe(variant)
    for s in seeds:
        c = session(s)
        rng = c.rng
        part.dropped += c.g.dropped
        prof = run.run(exe, prefix(c, len(c.texts) - 1), ctx.base, timeout=core.CASE_TIMEOUT, shim={})
        b = boundaries(prof)
        tg = []
        for i in range(len(c.texts) - 1):
            if i + 1 < len(b) and i + 1 < len(c.records):
                for k, w in FAIL.items():
                    col = CLASSES.index(k)
                    if b[i + 1][col] > b[i][col]:
                        tg.append((w, i, k, b[i][col], b[i + 1][col]))
        if not tg:
            part.add('sessions-without-target')
            continue
        for _ in range(per):
            _, i, k, lo, hi = rng.choices(tg, [t[0] for t in tg])[0]
            sh = {'ED_SHIM_FAIL': '%s:%d%s' % (k, pick(rng, lo, hi), '+' if rng.random() < .2 else '')}
            if rng.random() < .4:
                sh['ED_SHIM_AGAIN'] = str(SIGINT)
            fault_one(part, c, i, sh, s, variant)
            if part.bads:
                return part
    return part


def fault_one(part, c, i, sh, seed, variant):
    ctx = core.CTX
    r, d = fault(c, i, sh, ctx.exe(variant), ctx.base)
    d = core.keep(ctx.pid, d)
    part.evals += 1
    what = kind(c, i)
    fs = [l for l in r.shim if l[0] == 'F']
    if fs:
        part.add('failed:' + fs[0][1])
        part.seen(what + repr((c.records[i], sh)).encode())
    if d:
        for _ in range(3):
            r2, d2 = fault(c, i, sh, ctx.exe(variant), ctx.base)
            d2 = core.keep(ctx.pid, d2)
            if d2:
                part.bads.append(core.Bad(
                    d2[0][0], 'failure %s%s in command %d %r (session %d): %s' % (
                        sh['ED_SHIM_FAIL'], ' of ' + fs[0][1] if fs else '', i, what[:200], seed,
                        '; '.join('%s: %s' % x for x in d2)),
                    prefix(c, i), seed, variant, extra=dict(how='fault', cmd=i, shim=sh)))
                return
        part.inconclusive += 1


def fault(c, i, sh, exe, base):
    """Let a call fail, then undo (if the command is a single line), write
    and quit."""
    what = kind(c, i)
    u = len(c.texts[i]) == 1
    always = sh['ED_SHIM_FAIL'].endswith('+')
    pc = prefix(c, i, b'u\nw OUT\nq\nq\nQ\n' if u else b'.\nw OUT\nQ\n')
    r = run.run(exe, pc, base, timeout=core.CASE_TIMEOUT, shim=sh)
    d = run.crashed(r) + misuse(r)
    if r.timeout:
        return r, d + [('timeout', 'no exit')]
    if r.left and r.exit >= 0:
        d.append(('scratch', 'scratch files left: %r' % r.left))
    recs = r.records
    if recs is None:
        return r, d
    bad = [x for x in recs if not x.ok]
    if bad:
        return r, d + [('lines', 'inconsistent line list after record %d' % bad[0].seq)]
    if r.exit < 0 or r.san or not any(l[0] == 'F' for l in r.shim):
        return r, d
    for k in range(min(i + 1, len(recs))):
        if recs[k].key() != c.records[k]:
            return r, d
    if len(recs) < i + 2:
        if r.exit == 0:
            d.append(('exit', 'exits with status 0 after failure'))
        return r, d
    x = recs[i + 1]
    B, A = c.records[i], c.records[i + 1]
    if x.text is None:
        return r, d
    st = path(c, i)
    if not on_path(x.text, st):
        d.append(('buffer', 'after failure buffer is %s; before %s, command makes %s' % (
            run.short(x.text), run.short(B[5]), run.short([y[0] for y in st[1:]], 600))))
    elif x.text != B[5] and not x.modified and A[2]:
        d.append(('modified', 'change made by failed command is not marked as modification'))
    elif not x.status and x.key() != A:
        d.append(('silent', 'failure is not reported; state %s expected %s' % (
            run.short(x.key()[:5] + x.key()[5:]), run.short(A))))
    if always or not u or any(l[0] == 'F' and l[-1] == 'part' for l in r.shim):
        # (The rest of its text was taken as commands.)
        return r, d
    k = i + 2
    if after(r, 'A') not in (None, k):
        return r, d
    if after(r, 'A') == k and len(recs) > k:
        # An interrupt while waiting for the next command.
        y = recs[k]
        if not y.status or (y.text, y.dot, y.modified) != (x.text, x.dot, x.modified):
            d.append(('again', 'interrupt after failure, while reading a command: status %r, buffer %s was %s' % (
                y.status, run.short(y.text), run.short(x.text))))
        k += 1
    if u and x.text != B[5] and len(recs) > k and not d and undoable(what):
        y = recs[k]
        # (Undo is withdrawn if it cannot be recorded.)
        if y.text != B[5] and not (y.text == x.text and y.status < 0
                                   and sh['ED_SHIM_FAIL'][0] == 'm'):
            d.append(('undo', 'undo after failed %r gives %s, before it was %s (after failure %s)' % (
                what, run.short(y.text), run.short(B[5]), run.short(x.text))))
    last = recs[-1]
    out = r.files.get(b'OUT')
    if out is None:
        d.append(('write', 'later write did not work'))
    elif last.text is not None and out != image(last.text) and not binary(out, last.text):
        d.append(('write', 'file has %s, buffer %s' % (run.short(out), run.short(last.text))))
    return r, d


def fail_jobs(ctx, n, chunk=4):
    s0 = ctx.seed * 1000003 + 400000000
    return [(fail_batch, (range(s0 + k, s0 + min(n, k + chunk)),)) for k in range(0, n, chunk)]


def again(o, exe, base):
    """Run a saved case again."""
    c = session(o['seed'])
    x = o['extra']
    f = {'hup': hup, 'intr': intr, 'quit_': quit_, 'fault': fault, 'starting': starting}[x['how']]
    return f(c, x['cmd'], x['shim'], exe, base)


def starting(c, i, sh, exe, base):
    """A signal, or failure, before the first command."""
    r = run.run(exe, prefix(c, len(c.texts) - 1), base, timeout=core.CASE_TIMEOUT, shim=sh)
    d = run.crashed(r) + misuse(r)
    early = [l for l in r.shim if l[0] == 'S' and not any(x[0] == 'R' for x in r.shim)]
    if early and r.exit in (-SIGHUP, -SIGINT):
        # Before signals are handled; there is nothing to clean up.
        d = [('scratch', 'scratch files left: %r' % r.left)] if r.left else []
        return r, d
    if r.timeout:
        return r, d + [('timeout', 'no exit')]
    if r.left and r.exit >= 0:
        d.append(('scratch', 'scratch files left: %r' % r.left))
    if r.exit < 0 or r.san or not any(l[0] == 'F' for l in r.shim):
        return r, d
    if r.exit == 0 and [x.key() for x in r.records or []] != c.records[:len(r.records or [])]:
        d.append(('start', 'status 0, but not the usual session'))
    return r, d


def start_batch(seeds, per=8, variant='fault'):
    """Signals and failures while the editor starts."""
    part = core.Part()
    ctx = core.CTX
    for s in seeds:
        c = session(s)
        rng = c.rng
        prof = run.run(ctx.exe(variant), prefix(c, len(c.texts) - 1), ctx.base,
                       timeout=core.CASE_TIMEOUT, shim={})
        b = boundaries(prof)
        if not b:
            continue
        b = b[0]
        for _ in range(per):
            k = rng.choice(('BB', 'CALL') + (('FAIL',) if ctx.pid in ('P18', 'P21') else ()))
            if k == 'FAIL':
                f = rng.choice([x for x in FAIL if b[CLASSES.index(x)]])
                v = '%s:%d%s' % (f, pick(rng, 0, b[CLASSES.index(f)]), '+' if rng.random() < .2 else '')
            else:
                v = '%d:%d' % (pick(rng, 0, b[k == 'CALL']), rng.choice((SIGINT, SIGHUP)))
            sh = {'ED_SHIM_' + k: v}
            for _ in range(2):
                r, d = starting(c, -1, sh, ctx.exe(variant), ctx.base)
                d = core.keep(ctx.pid, d)
                if not d:
                    break
            part.evals += 1
            for l in r.shim:
                if l[0] in 'SF':
                    part.add('start:%s-%s' % (k, l[1]))
                    part.seen((k + repr(sh) + repr(c.args)).encode())
            if d:
                part.bads.append(core.Bad(
                    d[0][0], '%s at start (session %d): %s' % (sh, s, '; '.join('%s: %s' % x for x in d)),
                    prefix(c, len(c.texts) - 1), s, variant,
                    extra=dict(how='starting', cmd=-1, shim=sh)))
                return part
    return part


def start_jobs(ctx, n, chunk=4):
    s0 = ctx.seed * 1000003 + 500000000
    return [(start_batch, (range(s0 + k, s0 + min(n, k + chunk)),)) for k in range(0, n, chunk)]


def sig_jobs(ctx, signo, n, chunk=4, **kw):
    s0 = ctx.seed * 1000003 + signo * 100000000
    return [(sig_batch, (signo, range(s0 + k, s0 + min(n, k + chunk))))
            for k in range(0, n, chunk)]
