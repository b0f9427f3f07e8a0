"""What writing leaves behind: files, links, rights, and what was said.

Part 1 (histories): sessions that write, append, read and edit files of a
small directory tree with links, directories and files without rights, while
shell commands rename, remove, replace, link and change them.  A simulated
tree says what every name must hold afterwards and which writes must fail.

Part 2 (limits): the file being written reaches a size limit, or its file
system has no room, at some byte.  Part 3 (failures): one call inside the
writing command fails.  In both what the editor said decides: success means
exactly those lines are there, an error means nothing else has changed and
the buffer is still marked as modified; trying again must then work."""
import os, random, resource, shutil, signal, stat

from . import core, gen, inject, model, profiles, run, rx
from .run import Case


class Ino(object):
    """A regular file; shared by its hard links."""
    __slots__ = ('data', 'mode')

    def __init__(self, data, mode=0o644):
        self.data, self.mode = data, mode


class FS(object):
    """Simulated tree: path -> Ino, ('dir', writable), ('link', target)."""
    OPS = (b'mv -f ', b'rm -f ', b'cp ', b'ln ', b'printf "')

    def __init__(self, t=None):
        self.t = t if t is not None else {}

    def copy(self):
        c = {}
        n = {}
        for k, v in self.t.items():
            if isinstance(v, Ino):
                i = c.get(id(v))
                if i is None:
                    i = c[id(v)] = Ino(v.data, v.mode)
                n[k] = i
            else:
                n[k] = v
        return FS(n)

    def resolve(self, p, depth=0):
        """Path after links; OSError when there is no such place."""
        if depth > 8 or len(p) > 4000 or any(len(x) > 255 for x in p.split(b'/')):
            raise OSError()
        if p.startswith(b'./'):
            return self.resolve(p[2:], depth)
        if p.startswith(b'd/../'):
            return self.resolve(p[5:], depth)
        v = self.t.get(p)
        if isinstance(v, tuple) and v[0] == 'link':
            return self.resolve(v[1], depth + 1)
        if b'/' in p:
            d, b = p.rsplit(b'/', 1)
            d = self.resolve(d, depth + 1)
            x = self.t.get(d)
            if not (isinstance(x, tuple) and x[0] == 'dir'):
                raise OSError()
            if d + b'/' + b != p:
                return self.resolve(d + b'/' + b, depth + 1)
        return p

    def read(self, p):
        if p in (b'/dev/null', b'/dev/full'):
            if p == b'/dev/full':
                raise model.Unspec()
            return b''
        v = self.t.get(self.resolve(p))
        if isinstance(v, tuple):
            raise model.Unspec()         # (moves the current line before it fails)
        if not isinstance(v, Ino) or not v.mode & 0o400:
            raise OSError()
        return v.data

    def write(self, p, data, append, is_def=False):
        if p == b'/dev/full':
            if not data:
                raise model.Unspec()
            raise OSError()
        p = self.resolve(p)
        v = self.t.get(p)
        if v is None:
            d = p.rsplit(b'/', 1)[0] if b'/' in p else None
            if d is not None and not self.t[d][1]:
                raise OSError()
            self.t[p] = Ino(data)
            return
        if not isinstance(v, Ino) or not v.mode & 0o200:
            raise OSError()
        v.data = v.data + data if append else data

    def shell(self, cmd):
        """One of the commands generated here."""
        w = cmd.split(b' ')
        U = model.Unspec
        t = self.t
        try:
            if any(len(x) > 200 for x in w):
                raise U()
            if w[0] != b'printf':
                x = t.get(self.resolve(w[-1])) if w[0] != b'rm' and w[-1] in t else None
                if isinstance(x, tuple):
                    raise U()
            if w[0] == b'rm':
                if len(w) != 3 or isinstance(t.get(w[2]), tuple) and t[w[2]][0] == 'dir':
                    raise U()
                t.pop(w[2], None)
            elif w[0] == b'mv':
                a, b = w[2], w[3]
                if a not in t or a == b or b'/' in a + b or any(
                        isinstance(t.get(x), tuple) and t[x][0] == 'dir' for x in (a, b)) \
                        or t.get(b) is t[a] or self.same(a, b):
                    raise U()
                t[b] = t.pop(a)
            elif w[0] == b'cp':
                a, b = w[1], w[2]
                d = self.read(a)
                if self.same(a, b) or b not in t and b'/' in b:
                    raise U()
                if isinstance(t.get(b), tuple) and t.get(self.resolve(b)) is None:
                    raise U()
                was = t.get(self.resolve(b))
                self.write(b, d, False)
                if was is None:
                    t[self.resolve(b)].mode = t[self.resolve(a)].mode
            elif w[0] == b'ln' and w[1] == b'-sf':
                a, b = w[2], w[3]
                if a == b or isinstance(t.get(b), tuple) and t[b][0] == 'dir' or b'/' in a + b:
                    raise U()
                if b in t and self.same(a, b):
                    raise U()
                t[b] = ('link', a)
            elif w[0] == b'ln':
                a, b = w[1], w[2]
                if b in t or not isinstance(t.get(a), Ino) or b'/' in a + b:
                    raise U()
                t[b] = t[a]
            elif w[0] == b'printf':
                text, b = cmd[len(b'printf "'):].split(b'" ')
                app = b.startswith(b'>>')
                b = b.lstrip(b'>')
                self.write(b, text.replace(b'\\n', b'\n'), app)
            else:
                raise U()
        except (OSError, ValueError, KeyError, IndexError):
            raise U()
        return b'', 0

    def same(self, a, b):
        try:
            x, y = self.resolve(a), self.resolve(b)
        except OSError:
            return True
        return x == y or self.t.get(x) is not None and self.t.get(x) is self.t.get(y)

    def tree(self):
        """As collect() gives it."""
        o, seen = {}, {}
        for k in sorted(self.t):
            v = self.t[k]
            if isinstance(v, Ino):
                o[k] = ('file', v.data, v.mode, seen.setdefault(id(v), k))
            elif v[0] == 'dir':
                o[k] = ('dir', v[1])
            else:
                o[k] = v
        return o

    def make(self, wd):
        wd = os.fsencode(wd)
        seen = {}
        ro = []
        for k in sorted(self.t):
            v, p = self.t[k], os.path.join(wd, k)
            if isinstance(v, Ino):
                if id(v) in seen:
                    os.link(seen[id(v)], p)
                    continue
                seen[id(v)] = p
                with open(p, 'wb') as f:
                    f.write(v.data)
                os.chmod(p, v.mode)
                os.chown(p, run.NOBODY, run.NOBODY)
            elif v[0] == 'dir':
                os.mkdir(p)
                os.chown(p, run.NOBODY, run.NOBODY)
                if not v[1]:
                    ro.append(p)
            else:
                os.symlink(v[1], p)
        for p in ro:
            os.chmod(p, 0o555)


def collect(wd):
    wd = os.fsencode(wd)
    o, seen = {}, {}

    def walk(d, pre):
        for n in sorted(os.listdir(d)):
            p, k = os.path.join(d, n), pre + n
            s = os.lstat(p)
            if stat.S_ISLNK(s.st_mode):
                o[k] = ('link', os.readlink(p))
            elif stat.S_ISDIR(s.st_mode):
                o[k] = ('dir', bool(s.st_mode & 0o200))
                walk(p, k + b'/')
            elif stat.S_ISREG(s.st_mode):
                with open(p, 'rb') as f:
                    o[k] = ('file', f.read(), s.st_mode & 0o777, (s.st_dev, s.st_ino))
            else:
                o[k] = ('other', s.st_mode)
    walk(wd, b'')
    # (The name of a file's first link stands for the file.)
    for k in sorted(o):
        if o[k][0] == 'file':
            o[k] = o[k][:3] + (seen.setdefault(o[k][3], k),)
    return o


def as_nobody():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_FSIZE, (64 << 20, 64 << 20))
    resource.setrlimit(resource.RLIMIT_CPU, (60, 60))
    os.umask(0o022)
    os.setgroups([])
    os.setresgid(run.NOBODY, run.NOBODY, run.NOBODY)
    os.setresuid(run.NOBODY, run.NOBODY, run.NOBODY)


LONG = b'n' * 256
NAMES = [b'f1', b'f2', b'f3', b'out', b'out2', b'ro', b'hl', b'ln1', b'lnd', b'dang', b'loop', b'd/x',
         b'd/new', b'd', b'rod/w', b'rod/r', b'rod/new', b'nodir/x', b'f1/x', b'./f1', b'./out', LONG,
         b'/dev/full', b'wo', b'd/../f1']
PLAIN = [b'f1', b'f2', b'f3', b'out', b'out2', b'hl', b'ln1', b'dang']


def tree0(r):
    f2 = Ino(b'one\ntwo\nthree\nfour\n')
    big = b''.join(b'line %d of a longer file\n' % i for i in range(r.choice([3, 60, 400])))
    return FS({b'f1': Ino(b'alpha\nbeta\ngamma\n'), b'f2': f2, b'hl': f2, b'f3': Ino(big),
               b'ro': Ino(b'fixed\n', 0o444), b'wo': Ino(b'only written\n', 0o200),
               b'ln1': ('link', b'f1'), b'lnd': ('link', b'd'), b'dang': ('link', b'out2'),
               b'loop': ('link', b'loop'), b'd': ('dir', True), b'd/x': Ino(b'x in d\nno newline'),
               b'rod': ('dir', False), b'rod/w': Ino(b'w\n', 0o666), b'rod/r': Ino(b'r\n', 0o444)})


class Gen(gen.Gen):
    """Sessions that write, with changes to the tree between."""

    def name(self):
        return self.pick(PLAIN) if self.chance(.6) else self.pick(NAMES)

    def g_w(self):
        r = self.r
        x = r.random()
        rng = b'' if x < .45 else b',' if x < .6 else self.a2()
        y = r.random()
        return rng + self.pick([b'w', b'w', b'w', b'W']) + \
            (b' ' + self.name() if y < .6 else b'') + b'\n'

    def g_wq(self):
        # (An end only where the write, or the warning, prevents it.)
        return self.pick([b'1', b'1', b'']) + b'wq' + self.pick([b'', b' ' + self.name()]) + b'\n'

    def g_r(self):
        if self.m.lines > self.maxlines:
            return self.g_d()
        return self.a1(True) + b'r' + self.pick([b'', b' ' + self.name()]) + b'\n'

    def g_e(self):
        return self.pick([b'e', b'E', b'E']) + self.pick([b'', b' ' + self.name()]) + b'\n'

    def g_f(self):
        return b'f' + self.pick([b'', b' ' + self.name(), b' ' + self.name()]) + b'\n'

    def g_fs(self):
        r = self.r
        fs = self.m.fs
        have = [k for k in fs.t if b'/' not in k and not (isinstance(fs.t[k], tuple)
                                                           and fs.t[k][0] == 'dir')]
        nm = self.m.name
        # Mostly what matters: the file being edited.
        a = nm if nm in have and r.random() < .6 else r.choice(have)
        b = nm if nm and b'/' not in nm and r.random() < .3 else r.choice(PLAIN + [b'other'])
        k = r.randrange(8)
        if k < 2:
            c = b'mv -f ' + a + b' ' + b
        elif k == 2:
            c = b'rm -f ' + a
        elif k == 3:
            c = b'cp ' + a + b' ' + b
        elif k == 4:
            c = b'ln ' + a + b' ' + b
        elif k == 5:
            c = b'ln -sf ' + a + b' ' + b
        else:
            c = b'printf "' + self.pick([b'new', b'new\\n', b'x\\ny\\nz\\n', b'']) + b'" ' + \
                self.pick([b'>', b'>>']) + (a if r.random() < .6 else b)
        return b'!' + c + b'\n'


W = dict(a=4, c=1, d=3, t=1, m=1, s=1, j=.5, u=1.5, w=12, wq=1, r=2, e=3, f=1.5, fs=6, p=1, q=1)
VARS = [dict(args=['-s'], mopts={}), dict(args=[], mopts={}),
        dict(args=['-v'], mopts=dict(verbose=False)), dict(args=['-s', '-G'], mopts=dict(trad=True)),
        dict(args=['-G'], mopts=dict(trad=True))]


def history(seed):
    r = random.Random('writes/%d' % seed)
    v = r.choice([x for x in VARS if '-v' not in x['args']])
    fs0 = tree0(r)
    g = Gen(r.randrange(1 << 60), W, odd=.02, u8=.03, bin=.04, longlines=.03, probe=.1)

    def start(g):
        g.m.fs = fs0.copy()
        k = r.random()
        if k < .5:
            yield b'E ' + r.choice([b'f1', b'f2', b'f3', b'd/x', b'ln1', b'./f1', b'rod/w', b'ro']) + b'\n'
        elif k < .6:
            yield b'f ' + r.choice(PLAIN) + b'\n'
        if k > .4:
            yield b'a\n' + b''.join(g.line() + b'\n' for _ in range(r.randint(1, 8))) + b'.\n'
    c = g.case(r.randint(4, 22), files={}, args=v['args'], mopts=v['mopts'], start=start,
               locale=r.choice(['C', 'C.UTF-8']),
               end=[b'Q\n', b'', b'q\n', b'wq\n', b'wq out\n', b'q\nq\n', b'w\nq\n'])
    c.fs0 = fs0
    c.tree = g.m.fs.tree()
    c.out_files = None
    c.dropped = g.dropped
    return c


def tree_diff(want, got):
    for k in sorted(set(want) | set(got)):
        if want.get(k) != got.get(k):
            return '%r is %s, expected %s' % (k, run.short(got.get(k)), run.short(want.get(k)))
    return None


def run_history(c, exe, base, hook, timeout=core.CASE_TIMEOUT):
    r = run.run(exe, c, base, timeout=timeout, confined=True, preexec=as_nobody,
                setup=c.fs0.make, collect=collect)
    d = run.compare(c, r, hook)
    if not r.timeout and not (r.exit < 0 or r.san):
        x = tree_diff(c.tree, r.tree)
        if x:
            d.append(('file', x))
    return r, d


def history_batch(seeds, variant='asan'):
    part = core.Part()
    ctx = core.CTX
    for s in seeds:
        c = history(s)
        part.dropped += c.dropped
        r, d = run_history(c, ctx.exe(variant), ctx.base, ctx.hook)
        d = core.keep(ctx.pid, d)
        part.evals += 1
        part.add('writes-done', c.cov.get('write-done', 0))
        part.add('writes-refused', c.cov.get('write-fails', 0))
        part.add('tree-changes', c.cov.get('unit:fs', 0))
        if c.cov.get('write-done', 0) + c.cov.get('write-fails', 0):
            part.seen(c.script)
        if len(part.samples) < 1:
            part.samples.append(core.sample_of(c, r))
        if d:
            for _ in range(3):
                r, d = run_history(c, ctx.exe(variant), ctx.base, ctx.hook, 2 * core.CASE_TIMEOUT)
                d = core.keep(ctx.pid, d)
                if d:
                    part.bads.append(core.Bad(
                        d[0][0], 'history %d: %s' % (s, '; '.join('%s: %s' % x for x in d)), c, s,
                        variant, extra=dict(how='history')))
                    return part
            part.inconclusive += 1
    return part


def run_trial(c, exe, base, tmpfs=None, shim=None):
    """Write, look, make room, change the buffer, write again, look."""
    mid = (
        b'!echo MARK; cp m/T snap1 2>/dev/null\n!rm -f m/fill\n' + c.change +
        b'w m/T\n!cp m/T snap2\nw OUT\nQ\n')
    cs = Case(c.prefix + c.wc + mid, c.args, {}, {}, c.locale)
    fs = c.fs0

    def setup(wd):
        inside = {k[2:]: v for k, v in fs.t.items() if k.startswith(b'm/')}
        FS({k: v for k, v in fs.t.items() if not k.startswith(b'm/')}).make(wd)
        d = os.path.join(wd, 'm0' if tmpfs else 'm')
        if tmpfs:
            os.mkdir(d)
        FS(inside).make(d)
        for top, _, files in os.walk(wd):
            for f in files:
                os.chown(os.path.join(top, f), 0, 0)
    wrap = ()
    if tmpfs:
        wrap = ['unshare', '-Urm', '/bin/sh', '-c',
                'mount -t tmpfs -o size=%d none m || exit 77\ncp -a m0/. m/ || exit 78\n'
                'head -c %d /dev/zero > m/fill 2>/dev/null\n'
                '"$0" "$@"; s=$?; cp m/T final 2>/dev/null; exit $s' % tmpfs]
    r = run.run(exe, cs, base, timeout=core.CASE_TIMEOUT, setup=setup, collect=collect, wrap=wrap,
                shim=shim)
    return r, judge(c, r, tmpfs)


def judge(c, r, tmpfs):
    """(outcome, differences)."""
    d = run.crashed(r) + inject.misuse(r)
    if r.timeout:
        return 'timeout', d + [('timeout', 'no exit')]
    if r.exit in (77, 78) and tmpfs:
        return 'no-tmpfs', []
    if r.exit < 0 or r.san or r.exit > 127:
        if r.exit > 127:
            d.append(('signal', 'exit %d' % r.exit))
        return 'crash', d
    recs = r.records or []
    if [x.key() for x in recs[:len(c.recs)]] != c.recs or not r.stdout.startswith(c.out):
        return 'other', d                # (not this check's business)
    rest = r.stdout[len(c.out):].split(b'MARK\n')[0]
    S = recs[len(c.recs) - 1]
    R = recs[len(c.recs)] if len(recs) > len(c.recs) else None
    tree = r.tree
    get = lambda n: tree[n][1] if n in tree and tree[n][0] == 'file' else None
    a, b = c.range
    final = get(b'final') if tmpfs else get(b'm/T')
    if rest.startswith(b'?\n'):
        how = 'refused'
        if R is None:
            if 'wq' in c.kind:
                d.append(('exit', 'wq leaves though the write failed'))
            return how, d
        if R.key()[5] != S.key()[5] or R.dot != S.dot or R.key()[4] != S.key()[4]:
            d.append(('buffer', 'failed write changes the buffer: was %s, now %s' % (
                run.short(S.key()[5]), run.short(R.key()[5]))))
        if S.modified and not R.modified:
            d.append(('modified', 'failed write leaves the buffer marked as written'))
        if c.kind.startswith('W') and c.old is not None and \
           not (get(b'snap1') or b'').startswith(c.old):
            d.append(('append', 'failed append damages what was in the file'))
        if not R.status:
            d.append(('status', 'failed write is not in the exit status'))
    else:
        how = 'written'
        ok = b'' if '-s' in c.args else b'%d\n' % len(c.image)
        if not rest.startswith(ok) or rest not in (ok, ok + b'?\n'):
            d.append(('size', 'printed %r, expected %r' % (rest[:20], ok)))
        want = ((c.old or b'') if c.kind.startswith('W') else b'') + c.image
        got = final if R is None else get(b'snap1')
        if got != want:
            d.append(('file', 'reported as written, but the file has %s (%s bytes), expected %s (%d bytes)' % (
                run.short(got), len(got) if got is not None else 'no', run.short(want), len(want))))
        if R is None:
            if 'wq' not in c.kind:
                d.append(('exit', 'ended with status %d after write' % r.exit))
            return how, d
        if 'wq' in c.kind:
            pass                         # (after a warning)
        elif R.modified != (False if c.whole else S.modified):
            d.append(('modified', 'modified flag is %s after successful write' % R.modified))
    # And then again, with room.
    if get(b'snap2') != c.image2:
        d.append(('again', 'second write leaves %s, expected %s' % (
            run.short(get(b'snap2')), run.short(c.image2))))
    elif final != c.image2:
        d.append(('late', 'file changes after it was written: %s, expected %s' % (
            run.short(final), run.short(c.image2))))
    elif get(b'OUT') != c.image2:
        d.append(('out', 'other file has %s, expected %s' % (
            run.short(get(b'OUT')), run.short(c.image2))))
    return how, d


TW = dict(a=5, i=1, c=2, d=2, j=1, m=2, t=2, s=3, g=1, u=1, k=1, reg_w=.5, reg_r=.5, p=1, r=1, f=.3, w=2)


class TGen(Gen):
    def name(self):
        return self.pick([b'f1', b'f2', b'out', b'hl'])


def trial(seed):
    """A session that ends in a write worth failing."""
    r = random.Random('trial/%d' % seed)
    v = r.choice([x for x in VARS if '-v' not in x['args']])
    old = r.choice([None, None, b'old\n', b'former line\n' * r.randint(1, 900), b'x' * r.randint(0, 9000)])
    big = b''.join(b'%d a line of the larger file %s\n' % (i, b'-' * r.randint(0, 90))
                   for i in range(r.choice([1, 30, 100, 300])))
    t = tree0(r).t
    fs0 = FS({k: t[k] for k in (b'f1', b'f2', b'hl')})
    fs0.t[b'm'] = ('dir', True)
    fs0.t[b'BIG'] = Ino(big)
    if old is not None:
        fs0.t[b'm/T'] = Ino(old)
    g = TGen(r.randrange(1 << 60), TW, odd=.02, u8=.03, bin=.04, longlines=.03, probe=0)

    def start(g):
        g.m.fs = fs0.copy()
        k = r.random()
        if k < .4 and old is not None:
            yield b'E m/T\n'
        elif k < .6:
            yield b'f m/T\n'
        elif k < .85:
            yield r.choice([b'E f1\n', b'f f1\n', b'f out\n'])
        yield b'$a\n' + b''.join(g.line() + b'\n' for _ in range(r.randint(1, 6))) + b'.\n'
    big_last = r.random() < .7
    c = g.case(r.randint(0, 8), files={}, args=v['args'], mopts=v['mopts'], start=start,
               locale=r.choice(['C', 'C.UTF-8']), end=[(b'$r BIG\n' if big_last else b'') + b'Q\n'])
    if not c.script.endswith(b'Q\n') or c.records is None:
        return None
    m = g.m
    c.prefix = c.script[:-2]
    c.recs = c.records
    c.out = c.stdout
    c.fs0 = fs0
    c.old = m.fs.t[b'm/T'].data if b'm/T' in m.fs.t else None
    n = m.lines
    if n == 0:
        return None
    k = r.choice(['w', 'w', 'w', 'W', 'wq', 'w'])
    if m.posix and k == 'wq':
        k = 'w'
    a, b = 1, n
    rng = b''
    if r.random() < .25:
        a = r.randint(1, n)
        b = r.randint(a, n)
        rng = b'%d,%d' % (a, b)
    c.kind = k
    c.range = (a, b)
    c.whole = (a, b) == (1, n)
    c.image = m.image(a, b)
    c.wc = rng + k.encode() + (b'' if m.name == b'm/T' and r.random() < .8 else b' m/T') + b'\n'
    # Change the buffer between the two.
    m.exited = None
    m.allow_eof = False
    c.change = b''
    if r.random() < .7:
        u = r.choice([b'1d\n', b'$d\n', b'1s/^/new /\n', b'2,$d\n', b'$a\nmore\n.\n', b'1t$\n'])
        s = m.snap()
        try:
            m.feed(u)
            c.change = u if m.records[-1] and len(m.records) else b''
        except model.Unspec:
            m.restore(s)
    c.image2 = m.image(1, m.lines) if m.lines else b''
    c.rng = r
    c.seed = seed
    del c.records, c.stdout
    c.records = c.stdout = None
    return c


def limit(c, exe, base, room):
    return run_trial(c, exe, base, tmpfs=room)


def fail(c, exe, base, sh):
    return run_trial(c, exe, base, shim=sh)


def report(part, c, how, d, f, arg, variant):
    ctx = core.CTX
    d = core.keep(ctx.pid, d)
    part.evals += 1
    if not d:
        return
    for _ in range(3):
        r, (h2, d2) = f(c, ctx.exe(variant), ctx.base, arg)
        d2 = core.keep(ctx.pid, d2)
        if d2:
            part.bads.append(core.Bad(
                d2[0][0], '%s %s, %r %s (trial %d): %s' % (
                    f.__name__, arg, c.wc, h2, c.seed, '; '.join('%s: %s' % x for x in d2)),
                Case(c.prefix + c.wc, c.args, {}, {}, c.locale), c.seed, variant,
                extra=dict(how=f.__name__, arg=arg)))
            return
    part.inconclusive += 1


def limit_batch(seeds, variant='asan'):
    part = core.Part()
    ctx = core.CTX
    for s in seeds:
        c = trial(s)
        if c is None:
            continue
        size = 4096 * c.rng.randint(4, 24)
        have = len(c.fs0.t[b'm/T'].data) if b'm/T' in c.fs0.t else 0
        pages = -(-have // 4096)
        # Room for a part of what is to be written.
        need = -(-len(c.image) // 4096)
        keep = c.rng.randint(0, need + 1)
        most = -(-max(len(c.image), len(c.image2)) // 4096)
        size = max(size, 4096 * (most + pages + 30) * 2)
        fill = size - 4096 * (pages + keep)
        arg = (size, max(0, fill))
        r, (how, d) = limit(c, ctx.exe(variant), ctx.base, arg)
        part.add('limit:' + how)
        if how in ('refused', 'written'):
            part.seen(repr((s, arg)).encode())
        report(part, c, how, d, limit, arg, variant)
        if part.bads:
            break
    return part


def fail_batch(seeds, per=6, variant='fault'):
    part = core.Part()
    ctx = core.CTX
    for s in seeds:
        c = trial(s)
        if c is None:
            continue
        r, (how, d) = fail(c, ctx.exe(variant), ctx.base, {})
        report(part, c, how, d, fail, {}, variant)
        b = inject.boundaries(r)
        i = len(c.recs) - 1
        if part.bads or how == 'other' or len(b) <= i + ('wq' not in c.kind):
            continue
        hi = b[i + 1] if len(b) > i + 1 else None
        tg = []
        for k, w in (('m', 1), ('f', 4), ('o', 2)):
            col = inject.CLASSES.index(k)
            n1 = hi[col] if hi else b[i][col] + 12
            if n1 > b[i][col]:
                tg.append((w, k, b[i][col], n1))
        for _ in range(per if tg else 0):
            _, k, lo, n1 = c.rng.choices(tg, [t[0] for t in tg])[0]
            sh = {'ED_SHIM_FAIL': '%s:%d' % (k, inject.pick(c.rng, lo, n1))}
            r, (how, d) = fail(c, ctx.exe(variant), ctx.base, sh)
            fs = [l for l in r.shim if l[0] == 'F']
            if fs:
                part.add('failed:%s-%s' % (fs[0][1], how))
                part.seen(repr((s, sh)).encode())
            report(part, c, how, d, fail, sh, variant)
            if part.bads:
                return part
    return part


def jobs(ctx, nh, nl, nf):
    s0 = ctx.seed * 1000003

    def cut(f, n, k, o):
        return [(f, (range(s0 + o + i, s0 + o + min(n, i + k)),)) for i in range(0, n, k)]
    return (cut(history_batch, nh, 20, 0) + cut(limit_batch, nl, 10, 200000000) +
            cut(fail_batch, nf, 4, 300000000) + [(two_batch, (range(len(TWO)),))])


TWO = [  # session with files T of two file systems, what m/T, n/T and OUT hold then
    (b'E m/T\n$a\nadded\n.\nw n/T\nw OUT\nQ\n', b'in m\n', b'in m\nadded\n', b'in m\nadded\n'),
    (b'E m/T\nW n/T\nr n/T\nw OUT\nQ\n', b'in m\n', b'in n\nin m\n', b'in m\nin n\nin m\n'),
    (b'E m/T\n1d\nr n/T\nw OUT\nQ\n', b'in m\n', b'in n\n', b'in n\n'),
    (b'E m/T\nE n/T\n$a\nadded\n.\nw\nw OUT\nQ\n', b'in m\n', b'in n\nadded\n', b'in n\nadded\n'),
    (b'E m/T\nf n/T\nr\nw\nw OUT\nQ\n', b'in m\n', b'in m\nin n\n', b'in m\nin n\n'),
    (b'a\nnew\n.\nw m/U\nw n/U\nE m/T\nw n/T\nE n/U\nr n/T\nw OUT\nQ\n', b'in m\n', b'in m\n', b'new\nin m\n'),
    (b'E m/T\nE n/T\nE m/T\nw\nr n/T\nw m/U\nw OUT\nQ\n', b'in m\n', b'in n\n', b'in m\nin n\n'),
]


def two_batch(n, variant='asan'):
    """Files with the same number on different file systems."""
    part = core.Part()
    ctx = core.CTX
    for s in n:
        script, m, n2, out = TWO[s % len(TWO)]
        c = Case(script, ['-s'], {}, {b'mT': b'in m\n', b'nT': b'in n\n'}, 'C')
        wrap = ['unshare', '-Urm', '/bin/sh', '-c',
                'mkdir m n; for d in m n; do mount -t tmpfs none $d || exit 77; cat < ${d}T > $d/T; done\n'
                '"$0" "$@"; s=$?; cat < m/T > m1; cat < n/T > n1; ls -i m n > inodes; exit $s']
        for k in range(2):
            r = run.run(ctx.exe(variant), c, ctx.base, timeout=core.CASE_TIMEOUT, wrap=wrap)
            d = run.crashed(r)
            if r.exit == 77:
                break
            for f, want in ((b'm1', m), (b'n1', n2), (b'OUT', out)):
                if r.files.get(f) != want:
                    d.append(('file', '%r has %s, expected %s' % (f, run.short(r.files.get(f)), run.short(want))))
            d = core.keep(ctx.pid, d)
            if not d:
                break
        part.evals += 1
        if r.exit == 77:
            part.add('two:no-tmpfs')
            continue
        part.add('two:same-number' if same_numbers(r.files.get(b'inodes', b'')) else 'two:other')
        part.seen(script)
        if d:
            part.bads.append(core.Bad(d[0][0], 'two file systems: %s' % '; '.join('%s: %s' % x for x in d),
                                      c, s, variant, extra=dict(how='two')))
    return part


def same_numbers(b):
    x = [l.split()[0] for l in b.split(b'\n') if l.endswith(b' T')]
    return len(x) == 2 and x[0] == x[1]


def again(o, exe, base):
    """Run a saved case again: (result, differences)."""
    x = o['extra']
    if x['how'] == 'history':
        return run_history(history(o['seed']), exe, base, True)
    if x['how'] == 'two':
        core.CTX = core.Ctx(o['property'], 'quick', 1, {o['build']: exe}, base)
        p = two_batch([o['seed']], o['build'])
        return None, [b.text for b in p.bads]
    r, (how, d) = {'limit': limit, 'fail': fail}[x['how']](trial(o['seed']), exe, base, x['arg'])
    return r, d


HOWS = ('history', 'two', 'limit', 'fail')
