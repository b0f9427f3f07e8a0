"""Invocation: options on the command line and in ED, scripts given with -e,
-f or as standard input, -i, address arguments and several files.  A script
is generated against the reference model and then delivered in every way
that should not make a difference."""
import random

from . import core, gen, lists, model, run
from .model import EOF, EOF_NEXT, EOF_PREV, EdErr, Unspec
from .run import Case

FATAL = -99


class StartEd(lists.ListEd):
    def __init__(self, in_place=None, seekable=False, pre=(), write_only=False, ansi=False, **kw):
        lists.ListEd.__init__(self, **kw)
        self.in_place = in_place         # None, or the suffix
        self.seekable = seekable
        self.pre = list(pre)
        self.write_only = write_only
        self.fed = b''
        self.turns = 0
        self.own = bool(self.flist)      # list is that of the command line
        self.read_back = set()
        if seekable:
            self.exit_on_error = True

    SNAP_SHALLOW = lists.ListEd.SNAP_SHALLOW + ('pre', 'read_back')

    # -- input ---------------------------------------------------------------
    def feed(self, data):
        self.fed += data
        lists.ListEd.feed(self, data)

    def finish(self, data=b''):
        self.fed += data
        lists.ListEd.finish(self, data)

    def get_line(self):
        if self.pre and not self.frames:
            if self.reading != self.cmds:
                self.reading = self.cmds
                self.note('address-argument')
                return self.pre.pop(0)
            raise Unspec()
        return lists.ListEd.get_line(self)

    reading = 0

    def rewind(self):
        ls = self.fed.split(b'\n')
        tail = ls.pop()
        self.inp = [x + b'\n' for x in ls] + ([tail] if tail else [])
        self.ip = 0
        self.turns += 1
        if self.turns > 8:
            raise Unspec()

    # -- files ---------------------------------------------------------------
    def read_data(self, fn):
        d = lists.ListEd.read_data(self, fn)
        if self.write_only and fn != b'/dev/null':
            if fn in self.read_back:
                raise Unspec()
            return b''
        return d

    def c_r(self):
        if not self.write_only:
            return lists.ListEd.c_r(self)
        old, self.scripted = self.scripted, True    # (no size; no `!')
        try:
            if self.ch() == 33 or self.s[self.p:self.p + 3].strip()[:1] == b'!':
                raise Unspec()
            dot = self.st.dot
            io = lists.ListEd.c_r(self)
            self.st.dot = dot               # (nothing was read)
            return io
        finally:
            self.scripted = old

    def name_arg(self, cm, replace, uniquely):
        if replace and self.own:
            had = self.flist
            try:
                return lists.ListEd.name_arg(self, cm, replace, uniquely)
            finally:
                if self.flist is not had:
                    self.own = False
        return lists.ListEd.name_arg(self, cm, replace, uniquely)

    # -- between commands ------------------------------------------------------
    def go(self, cmd, quiet=False):
        """Run a command of ed's own; was there no error?"""
        self.s, self.p = cmd, 0
        self.addrs = self.start = self.end = 0
        self.globf = 0
        try:
            self.command()
        except EdErr as e:
            del self.frames[:]
            if not quiet:
                self.print_first = False
            self.handle(e.status)
            return False
        return True

    def save(self, backup):
        """Write the current file of the list, else the default one."""
        suffix = self.in_place if backup else b''
        n = None
        if len(self.flist) > self.at:
            n = self.flist[self.at]
        elif self.stray:
            raise Unspec()
        if not n or n[:1] == b'!':
            n = self.name
        if not n or n[:1] == b'!':
            self.err = b'File name not set'
            self.exited = 3
            return False
        n += suffix
        if n in self.dirs or n.rsplit(b'/', 1)[-1] in (b'.', b'..'):
            raise Unspec()
        self.note('backup' if backup else 'saved-in-place')
        return self.go(b'w ' + n + b'\n', True)

    def opened(self, cmd):
        ok = self.go(cmd)
        self.print_first = False
        if ok and self.in_place:
            ok = self.save(True)
        return ok

    def handle(self, status):
        if status not in (EOF, EOF_NEXT, EOF_PREV):
            if status == FATAL:
                self.exited = 3
                return
            return model.Ed.handle(self, status)
        if self.plain and status != EOF:
            raise Unspec()
        if self.in_place is not None and not self.plain and not self.save(False):
            return
        if status == EOF:
            if self.seekable and not self.plain and self.own and len(self.flist) - self.at > 1:
                self.note('script-again')
                self.rewind()
                self.opened(b'~En\n')
                return
            self.exited = self.status & 255
            return
        if len(self.flist) - self.at <= 0:
            if self.stray:
                raise Unspec()
            return
        self.note('list-write-and-go')
        self.opened(b'~En\n' if status == EOF_NEXT else b'~Ep\n')

    def one(self):
        if not self.started:
            self.started = True
            self.opened(b'r ' + self.flist[0] + b'\n')
            if self.exited is not None:
                return
        model.Ed.one(self)


class StartGen(lists.ListGen):
    FN = [b'a1', b'b1', b'c', b'new', b'aa']

    def g_edit(self):
        return self.pick([b'1s/l/L/\n', b's/e/E/g\n', b'$a\nlast\n.\n', b'0a\nfirst\n.\n', b'1d\n', b'$d\n', b'1m$\n', b'$t0\n', b'1,$p\n', b'$=\n',
                          b'g/1/s/line/LINE/\n', b'g/2/p\n', b'%s/x$/y/\n', b'1i\n..\n.\n', b',n\n', b'1ka\n', b"'ap\n", b'j\n', b'1,2j\n',
                          b'.=\n', b'g/./m0\n', b'f\n', b'1p\n', b'p\n', b'$\n', b'1\n', b'/line/\n', b'?line?\n', b'u\n', b'v/1/d\n'])

    def end_units(self):
        x = self.r.random()
        if x < .3:
            return b''
        if x < .5:
            return self.pick([b'q\n', b'Q\n', b'wq\n', b'w\nq\n', b'q\n1d\nw\n', b'Q\np\n', b'w\n', b'wq\n,p\n'])
        if x < .7:
            return self.pick([b'999p\n1d\n', b'xyz\np\n', b'/nosuch/\np\n', b'~wn\n', b'~wp\n', b'~wn\np\n', b'r no\np\n', b"'zp\n", b'~En\n',
                              b's/nosuch/x/\nw\n', b'~En\n1p\n', b'~wn\n1d\n', b'e\n', b'h\n', b'H\nxyz\n'])
        if x < .85:
            p = self.r.choices(sorted(W), [W[k] for k in sorted(W)])[0]
            u = getattr(self, 'g_' + p)()
            return u[:self.r.randrange(len(u)) if u else 0]
        return self.pick([b'a\nunended\n', b'a\nunended', b'1c\n', b'$s/x', b'1p', b'w', b'q', b'g/1/p', b'g/1/p\\\n', b'1a\none\n.'])

    def make(self, nunits, files, mo, whole=False, w=None):
        r = self.r
        w = w or W
        model.rx.set_locale('C')
        self.m = m = StartEd(files={k: model.File(v) for k, v in files.items()}, locale='C', **mo)
        script = []
        prods = sorted(w)
        wts = [w[k] for k in prods]
        kept = tries = 0
        while kept < nunits and tries < nunits * 5:
            tries += 1
            u = getattr(self, 'g_' + r.choices(prods, wts)[0])()
            s = m.snap()
            try:
                m.feed(u)
                if m.exited is not None or m.turns:
                    raise Unspec()
                script.append(u)
                kept += 1
            except Unspec:
                m.restore(s)
                self.dropped += 1
        s = m.snap()
        e = self.end_units()
        if whole and not e.endswith(b'\n'):
            e += b'\n' if e else b''
        try:
            m.finish(e)
        except Unspec:
            m.restore(s)
            e = self.pick([b'', b'q\n'])
            m.finish(e)
        return b''.join(script) + e


W = dict(edit=9, a=2, i=1, d=1, c=.7, s=2, p=1, g=1.5, lwalk=.3, le=.5, lf=.4, lw=.8, lr=.5, le0=.5, m=.7, t=.7, u=1, h=.4, k=.7, mark_use=.5, reg_w=.4,
         reg_r=.4, mac_def=.2, mac_run=.3)
W = {k: v for k, v in W.items() if hasattr(lists.ListGen, 'g_' + k) or hasattr(StartGen, 'g_' + k)}
# Macros run by scripts.
WM = dict(a=3, i=1, d=1, s=1, p=1, g=1.5, m=.5, t=.5, u=1, k=.5, mac_def=5, mac_run=7, reg_w=.5, reg_r=.5, lw=.5, edit=.5)

FILES = [b'a1', b'a2', b'b1', b'b2', b'c', b'aa', b'w x', b'it', b'n.txt', b'x+y', b'sub/x1', b'+x', b'+3a', b'+', b'-f1', b'--e']


# -- how options are written ---------------------------------------------------

LONG = {'s': ['--scripted', '--scr', '--script'], 'v': ['--verbose', '--verb'], 'E': ['--regexp-extended'], 'r': ['--regexp-extended'],
        'G': ['--traditional', '--trad', '--t'], 'R': ['--ansi-color', '--ansi'], 'w': ['--write', '--w']}
LONGARG = {'e': ['--expression', '--expr'], 'f': ['--file', '--fi'], 'p': ['--prompt', '--p']}


def written(R, atoms, env):
    """Write options [(letter, argument or None)] as words; env: no white
    space may occur."""
    out = []
    i = 0
    while i < len(atoms):
        o, a = atoms[i]
        i += 1
        if o == '-':
            out.append(b'-')
            continue
        if o == 'i':
            if R.random() < .5:
                out.append(b'-i' + (a or b''))
            else:
                out.append(R.choice([b'--in-place', b'--in', b'--i']) + (b'=' + a if a else b''))
            continue
        if a is None:
            if R.random() < .3:
                out.append(R.choice(LONG[o]).encode())
                continue
            w = '-' + o
            while i < len(atoms) and atoms[i][1] is None and atoms[i][0] not in '-i' and R.random() < .6:
                w += atoms[i][0]
                i += 1
            w = w.encode()
            if i < len(atoms) and atoms[i][0] in 'epf' and atoms[i][1] and R.random() < .4:
                o, a = atoms[i]
                i += 1
                w += o.encode()
                if R.random() < .5 and a:
                    out.append(w + a)
                else:
                    out += [w, a]
            else:
                out.append(w)
            continue
        x = R.random()
        if x < .4:
            out += [b'-' + o.encode(), a]
        elif x < .6 and a:
            out.append(b'-' + o.encode() + a)
        elif x < .8:
            out.append(R.choice(LONGARG[o]).encode() + b'=' + a)
        else:
            out += [R.choice(LONGARG[o]).encode(), a]
    return out


def pieces(R, script):
    """Split a script over -e and -f; None if it cannot be."""
    ls = script.split(b'\n')
    tail = ls.pop()
    ls = [x + b'\n' for x in ls]
    if tail:
        ls.append(tail)
    n = R.choice([1, 1, 2, 3, len(ls)])
    cuts = sorted(R.sample(range(1, len(ls)), min(n - 1, len(ls) - 1))) if len(ls) > 1 else []
    parts, a = [], 0
    for c in cuts + [len(ls)]:
        parts.append(b''.join(ls[a:c]))
        a = c
    return parts


def plan(seed, kind='start'):
    R = random.Random('%s/%d' % (kind, seed))
    files = {}
    for n in R.sample(FILES, R.randint(1, len(FILES))):
        x = R.random()
        files[n] = b'' if x < .1 else b''.join(
            b'%s line %d%s\n' % (n, i + 1, R.choice([b'', b' end', b' x'])) for i in range(R.randint(1, 5)))
        if x > .93:
            files[n] = files[n][:-1]
    src = R.choice(['pipe', 'file', 'opts', 'opts', 'opts'])
    flags = set()
    for o, p in (('s', .4), ('v', .5), ('E', .2), ('r', .1), ('G', .08), ('R', .1), ('w', .04), ('i', .4 if src == 'opts' else 0), ('p', .2)):
        if R.random() < p:
            flags.add(o)
    posix = R.random() < .06
    suffix = R.choice([b'', b'', b'.bak', b'~', b'.o', b'-1']) if 'i' in flags else None
    prompt = R.choice([b'*', b'>', b'ed: ', b'\x01', b'%s', b'P' * R.choice((3, 20, 77))]) if 'p' in flags else None
    argv = [R.choice(sorted(files) if R.random() < .95 else [b'no']) for _ in range(R.choice((0, 1, 1, 1, 2, 2, 3, 4)))]
    pre = []
    while R.random() < .3 and len(pre) < 3:
        pre.append(R.choice([b'1', b'2', b'3', b'0', b'/line', b'/2', b'?line', b'?1', b'/end$', b'?^a', b'/x.*', b'/nosuch', b'99', b'007']))
    mo = dict(scripted='s' in flags or src == 'opts', verbose='v' in flags, ere=bool(flags & set('Er')), trad='G' in flags, posix=posix,
              in_place=suffix, seekable=src != 'pipe', pre=[b + b'\n' for b in pre], write_only='w' in flags, argv=argv, dirs={b'sub', b'dir'})
    if prompt is not None:
        mo['prompt'] = prompt
    return R, files, src, flags, posix, suffix, prompt, argv, pre, mo


def make(seed, kind='start', w=None):
    R, files, src, flags, posix, suffix, prompt, argv, pre, mo = plan(seed, kind)
    g = StartGen(R.randrange(1 << 60), dict.fromkeys(W, 1))
    dashed = any(a.startswith(b'-') for a in argv)
    script = g.make(R.choice((4, 6, 10, 16) if w else (0, 1, 1, 2, 2, 3, 4, 6, 10)), files, mo, src == 'opts', w)
    m = g.m
    bare = '-' if 's' in flags and src != 'opts' and not dashed and R.random() < .3 else 's'
    opts = [(o, None) for o in flags if o in 'vErGRw']
    if 's' in flags and bare == 's':
        opts.append(('s', None))
    if prompt is not None:
        opts.append(('p', prompt))
    if suffix is not None:
        opts.append(('i', suffix))
    R.shuffle(opts)
    stdin = script
    aux = {}
    if src == 'opts':
        stdin = R.choice([b'', b'', b'1,$d\nw\n', b'garbage\n'])
        at = 0
        seq = []
        for k, p in enumerate(pieces(R, script)):
            whole = p.endswith(b'\n')
            if b'\0' not in p and p and (R.random() < .6):
                # (-e adds the newline a command needs)
                if whole and not (p == b'\n') and R.random() < .6 and p[-2:] != b'\n\n':
                    p = p[:-1]
                seq.append(('e', p if p != b'\n' or R.random() < .6 else b''))
            elif p and R.random() < .1 and not any(o == 'f' and a == b'-' for o, a in seq):
                stdin = p
                seq.append(('f', b'-'))
            else:
                n = b'../s%d' % k
                aux[n] = p
                seq.append(('f', n))
        # scripts keep their order among the other options
        for o in seq:
            at = R.randint(at, len(opts))
            opts.insert(at, o)
            at += 1
    # some of them in the environment variable
    env = {'HOME': 'sub'}
    cut = 0
    if R.random() < .35:
        cut = R.randint(0, len(opts))
        for k in range(cut):
            if opts[k][1] is not None and (opts[k][1] == b'' and opts[k][0] != 'i' or any(c in opts[k][1] for c in b' \t\n\0')):
                cut = k
                break
        w = written(R, opts[:cut], True)
        if R.random() < .1:
            w = w + [b'--']
        if w:
            v = R.choice([b'', b' ', b'\t\n']) + w[0]
            for x in w[1:]:
                v += R.choice([b' ', b'  ', b'\t', b'\n']) + x
            env['ED'] = v + R.choice([b'', b' ', b'\n'])
    elif R.random() < .1:
        env['ED'] = R.choice([b'', b' ', b'\n'])
    args = written(R, opts[cut:], False)
    operands = [(b'+' + p) for p in pre]
    fs = list(argv)
    for p in operands:                   # address arguments may stand anywhere
        fs.insert(R.randint(0, len(fs)), p)
    # (their order is kept)
    it = iter(operands)
    fs = [next(it) if f in operands and f not in argv else f for f in fs]
    if bare == '-' and 's' in flags:
        if fs and R.random() < .3:
            args.append(b'--')
        args.append(b'-')
    elif dashed or R.random() < .1:
        args.append(b'--')
    if not posix and args and b'--' not in args and bare == 's' and R.random() < .2:
        args = fs + args                 # operands first
    else:
        args = args + fs
    if posix:
        env['POSIXLY_CORRECT'] = '1'
    c = Case(stdin, args, env, dict([(b'sub', None), (b'dir', None)] + list(files.items())), 'C')
    c.files.update(aux)
    c.stdin_file = src == 'file'
    c.stdout = b''.join(m.out)
    c.records = list(m.records)
    c.texts = list(m.texts)
    c.out_files = {k: v.data for k, v in m.files.items()}
    c.exit = m.exited
    c.cov = m.cov
    c.cmds = m.cmds
    c.errors = m.errors
    fs = [a for o, a in opts if o == 'f']
    if m.exited in (2, 3, 4) and m.exit_on_error and m.verbose and not m.turns and not pre and 'cmd:@' not in m.cov \
            and (not fs or len(fs) == 1 and not any(o == 'e' for o, a in opts)):
        label = b'script, line ' if not fs or posix or 'G' in flags else (b'/dev/stdin' if fs[0] == b'-' else fs[0]) + b':'
        c.stderr_tail = label + b'%d: ' % sum(l.endswith(b'\n') for t in m.texts for l in t) + (m.err or b'(null)') + b'\n'
        m.note('place-of-error')
    for o, a in opts:
        m.note('option:' + o)
    m.note('script:' + src)
    if 'ED' in env:
        m.note('in-ED')
    m.note('files:%d' % len(argv))
    return c, g


def macro_batch(seeds):
    return batch(seeds, 'macro', WM)


def batch(seeds, kind='start', w=None):
    part = core.Part()
    for s in seeds:
        try:
            c, g = make(s, kind, w)
        except Unspec:
            part.add('plans-dropped')
            continue
        part.dropped += g.dropped
        core.run_case(part, c, s)
        if part.bads:
            break
        part.seen(repr((c.script, c.args, sorted(c.env.items()))).encode('latin1'))
        for k, x in c.cov.items():
            part.add(k, x)
        part.add('commands', c.cmds)
        part.add('errors-expected', c.errors)
    return part


# -- what is refused ---------------------------------------------------------------

USAGE = b'Usage: ed '


def misuse(seed):
    """(case, expected statuses, start of standard output, words wanted on
    standard error)."""
    R = random.Random('misuse/%d' % seed)
    files = {b'a1': b'one\ntwo\n', b'b1': b'x', b's1': b'1d\nw\n'}
    ok = []
    for _ in range(R.randint(0, 4)):
        ok.append(R.choice([[b'-s'], [b'-v'], [b'-E'], [b'-G'], [b'-e', b'1d'], [b'-ew'], [b'-f', b's1'], [b'-p', b'*'], [b'--verbose'], [b'-R'],
                            [b'-sv'], [b'--expression=1,$d'], [b'--file', b's1']]))
    scripted = any(a[0].startswith((b'-e', b'-f', b'--ex', b'--fi')) for a in ok)
    k = R.choice(['unknown', 'unknown', 'unknown', 'missing', 'missing', 'inplace', 'nofile', 'prompt', 'help', 'version', 'ed', 'noarg'])
    want, head, env, err = (2,), USAGE, {}, b''
    args = [x for a in ok for x in a]
    tail = [b'a1'] if R.random() < .7 else []
    if k == 'unknown':
        bad = R.choice([b'-Z', b'-z', b'-q', b'-a', b'--nope', b'--in-plac3', b'-sZ', b'-vqs', b'-1', b'-=', b'--=x', b'--e=', b'--ver', b'--regexp', b'-?',
                        b'-:', b'--prompt-x', b'-\xe9'])
        if bad == b'--e=':
            bad = b'--exx=1'
        ok.insert(R.randint(0, len(ok)), [bad])
        args = [x for a in ok for x in a] + tail
    elif k == 'missing':
        args = args + tail + [R.choice([b'-e', b'-f', b'-p', b'--expression', b'--file', b'--prompt', b'-sp', b'-ve', b'-svf'])]
    elif k == 'noarg':
        args = args + [R.choice([b'--verbose=1', b'--scripted=x', b'--help=', b'--traditional=0', b'--write=x'])] + tail
    elif k == 'inplace':
        args = [x for a in ok for x in a if not a[0].startswith((b'-e', b'-f', b'--ex', b'--fi'))]
        args.insert(0, R.choice([b'-i', b'-i.bak', b'--in-place', b'--in-place=.o', b'-vi']))
        args += tail
        want = (1,)
    elif k == 'nofile':
        ok.insert(R.randint(0, len(ok)), R.choice([[b'-f', b'none'], [b'-fnone'], [b'--file=none'], [b'-f', b'nodir/x'], [b'-f', b''], [b'-f', b'a1/x']]))
        args = [x for a in ok for x in a] + tail
        want, head = (3,), b''
    elif k == 'prompt':
        cols = R.choice([None, 20, 80, 132])
        n = (cols or 80) + R.choice([-1, 0, 1, 500])
        if cols:
            env['COLUMNS'] = str(cols)
        ok.insert(R.randint(0, len(ok)), R.choice([[b'-p', b'x' * n], [b'-p' + b'x' * n], [b'--prompt=' + b'x' * n]]))
        args = [x for a in ok for x in a] + tail
        want, head = (3,), b''
    elif k == 'help':
        ok.insert(R.randint(0, len(ok)), [R.choice([b'-h', b'--help', b'-sh', b'--hel'])])
        args = [x for a in ok for x in a] + tail
        want = (0,)
    elif k == 'version':
        ok.insert(R.randint(0, len(ok)), [R.choice([b'-V', b'--version', b'-sV'])])
        args = [x for a in ok for x in a] + tail
        want, head = (0,), b'ed '
    else:
        e = R.choice(['-Z', '--nope', '-p', '-s -Z', '-e', '-v --expression', '-sq', '-f'])
        env['ED'] = e
        args += tail
    if k != 'ed' and k != 'missing' and R.random() < .2:
        env['ED'] = R.choice(['-v', '-s', '-p* -s', '-E'])
        if k == 'prompt' and 'COLUMNS' not in env:
            pass
    if R.random() < .1:
        env['POSIXLY_CORRECT'] = '1'     # (options all come first)
        if k == 'missing' and tail:
            del env['POSIXLY_CORRECT']
    c = Case(R.choice([b'', b'1d\nw\n', b'garbage\n']), args, env, files, 'C')
    return k, c, want, head


def refused_batch(seeds):
    part = core.Part()
    ctx = core.CTX
    for s in seeds:
        k, c, want, head = misuse(s)
        part.evals += 1

        def judge():
            r = run.run(ctx.exe('asan'), c, ctx.base, timeout=core.CASE_TIMEOUT)
            d = run.crashed(r)
            if r.timeout:
                d.append(('timeout', 'no exit in time'))
            elif r.exit not in want:
                d.append(('exit', 'status %r, expected %r' % (r.exit, want)))
            if not r.stdout.startswith(head):
                d.append(('stdout', 'starts %r, expected %r' % (r.stdout[:80], head)))
            if r.files != c.files:
                d.append(('file', 'files changed'))
            if r.left:
                d.append(('scratch', 'scratch files left: %r' % r.left))
            return core.keep(ctx.pid, d)
        d = judge()
        if d:
            d = judge()
            if not d:
                part.inconclusive += 1
        if d:
            part.bads.append(core.Bad(d[0][0], '; '.join('%s: %s' % x for x in d) + ' [args %r, env %r]' % (c.args, c.env), c, s, 'asan'))
            break
        part.seen(repr((c.args, sorted(c.env.items()))).encode('latin1'))
        part.add('refused:' + k)
    return part


def macro_jobs(ctx, n, chunk=20):
    s0 = ctx.seed * 1000003 + 950000000
    return [(macro_batch, (range(s0 + k, s0 + min(n, k + chunk)),)) for k in range(0, n, chunk)]


def jobs(ctx, n, chunk=20):
    s0 = ctx.seed * 1000003 + 900000000
    return [(batch, (range(s0 + k, s0 + min(n, k + chunk)),)) for k in range(0, n, chunk)] + \
        [(refused_batch, (range(s0 + k, s0 + min(n // 3, k + 40)),)) for k in range(0, n // 3, 40)]
