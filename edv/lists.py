"""File lists: ~e ~E ~f ~r ~w with their n and p forms.  The reference model
extended by the list, its position and pattern expansion; sessions over a
directory of several files, whole directory compared afterwards."""
import random, re

from . import core, gen, model, profiles
from .model import EOF, EOF_NEXT, EOF_PREV, EMOD, EdErr, Unspec, NL
from .run import Case

WS = b' \f\n\r\t\v'
MAGIC = re.compile(rb'[*?\[]')


def tokens(x):
    """Words of a list; a backslash protects only white space."""
    out, cur, i, word = [], bytearray(), 0, False
    while i < len(x):
        c = x[i]
        if c == 92 and i + 1 < len(x) and x[i + 1] in WS:
            cur.append(x[i + 1])
            word = True
            i += 1
        elif c in WS:
            if word:
                out.append(bytes(cur))
            cur, word = bytearray(), False
        else:
            cur.append(c)
            word = True
        i += 1
    if word:
        out.append(bytes(cur))
    return out


def rx_of(pat):
    o, i = b'', 0
    while i < len(pat):
        c = pat[i:i + 1]
        if c == b'*':
            o += b'.*'
        elif c == b'?':
            o += b'.'
        elif c == b'[':
            j = i + 1
            if pat[j:j + 1] in (b'!', b'^'):
                j += 1
            if pat[j:j + 1] == b']':
                j += 1
            j = pat.find(b']', j)
            if j < 0:
                o += b'\\['
            else:
                b = pat[i + 1:j]
                if b'[' in b or b'\\' in b:
                    raise Unspec()
                if b[:1] in (b'!', b'^'):
                    b = b'^' + b[1:]
                o += b'[' + b.replace(b']', b'\\]') + b']'
                i = j
        else:
            o += re.escape(c)
        i += 1
    return re.compile(o + rb'\Z', re.S)


class ListEd(model.Ed):
    SNAP_SHALLOW = model.Ed.SNAP_SHALLOW

    def __init__(self, dirs=(), argv=(), **kw):
        model.Ed.__init__(self, **kw)
        self.dirs = set(dirs)
        self.flist = list(argv)
        self.at = 0
        self.print_first = bool(argv) and self.verbose
        self.started = not argv
        self.stray = False          # (a pattern not kept, without a list)

    # -- expansion ----------------------------------------------------------
    def entries(self, d):
        """Names in directory d (b'' for the working directory)."""
        out = {b'.', b'..'}
        for n in list(self.files) + list(self.dirs):
            if d:
                if not n.startswith(d + b'/'):
                    continue
                n = n[len(d) + 1:]
            out.add(n.split(b'/')[0])
        return out

    def matches(self, pat):
        if pat[:2] == b'~/' or pat == b'~':
            pat = b'sub' + pat[1:]      # (HOME)
        if b'\\' in pat or b'~' in pat or b'//' in pat or pat.startswith(b'/') or pat.endswith(b'/'):
            raise Unspec()
        cur = [b'']
        for k, comp in enumerate(pat.split(b'/')):
            if comp in (b'.', b'..'):
                raise Unspec()
            nxt = []
            for d in cur:
                if d and d not in self.dirs:
                    continue
                if MAGIC.search(comp):
                    r = rx_of(comp)
                    ns = [n for n in self.entries(d) if r.match(n) and (not n.startswith(b'.') or comp.startswith(b'.'))]
                else:
                    ns = [n for n in self.entries(d) if n == comp]
                nxt += [(d + b'/' if d else b'') + n for n in ns]
            cur = nxt
        return sorted(cur)

    def expand_pat(self, pat):
        m = self.matches(pat)
        if m:
            return m
        if b'/' not in pat:
            return [pat]
        d, b = pat.rsplit(b'/', 1)
        m = self.matches(d)
        if not m:
            return None
        m = [x + b'/' + b for x in m if x in self.dirs]
        if not m:
            raise Unspec()              # (message left over)
        return m

    # -- names ---------------------------------------------------------------
    def name_arg(self, cm, replace, uniquely):
        if self.ch() == 33 or not self.is_glob:
            return self.file_arg()
        x = self.extended_line(1, 0)
        if b'\0' in x:
            raise Unspec()
        self.p += len(x) + 1
        ts = tokens(x)
        if ts:
            names = []
            for t in ts:
                e = self.expand_pat(t)
                if e is None:
                    if replace:
                        self.flist, self.at = [], 0
                        self.started = True
                    self.fail('Pathname expansion error')
                names += e
                if uniquely and len(names) > 1:
                    if replace:
                        self.flist, self.at = [], 0
                    self.fail('Too many file names')
            if not replace and not self.flist:
                self.stray = True
            if replace:
                self.stray = False
                self.flist, self.at = names, 0
                self.note('list-set:%d' % min(4, len(names)))
            fn = names[0]
        else:
            L = self.flist
            if cm == 110:
                if len(L) - self.at <= 1:
                    self.fail('No more files')
                self.at += 1
                self.note('list-next')
            elif cm == 112:
                if not L or self.at <= 0:
                    self.fail('No more files')
                self.at -= 1
                self.note('list-previous')
            else:
                self.at = 0
                if not L:
                    if self.name is not None:
                        return False, self.name
                    self.fail('No more files')
                self.note('list-first')
            fn = L[self.at]
        if fn[:1] == b'!' or b'\\' in fn or b'\n' in fn or fn in self.dirs or fn.split(b'/')[-1] in (b'.', b'..'):
            raise Unspec()
        return False, fn

    def present(self, fn):
        return fn in self.files

    def read_data(self, fn):
        if fn in self.dirs:
            raise Unspec()
        if fn in self.files:
            return self.files[fn].data
        if fn == b'/dev/null':
            return b''
        if fn.rsplit(b'/', 1)[0] in self.files:
            raise Unspec()
        self.fail('File does not exist')

    # -- commands ---------------------------------------------------------------
    def c_f(self):
        if not self.is_glob:
            return model.Ed.c_f(self)
        self.no_address()
        cy = 0
        if self.ch() in (110, 112):
            cy = self.ch()
            self.p += 1
        if not bytes((self.ch(),)).isspace():
            self.fail('Command suffix unexpected')
        self.skip()
        if self.ch() != NL and cy:
            self.fail('Command suffix unexpected')
        if self.ch() == NL and not cy:
            self.p += 1
            if self.flist:
                for n in self.flist:
                    self.put(n + b'\n')
                self.note('list-printed')
            elif self.name is not None:
                self.put(self.name + b'\n')
            return 0
        shf, fn = self.name_arg(cy, 1, 0)
        if shf:
            raise Unspec()
        self.name = fn
        self.put(fn + b'\n')
        return 0

    def c_E(self):
        if not self.is_glob:
            return model.Ed.c_E(self)
        self.no_address()
        if self.globf or self.frames:
            raise Unspec()
        cy = 0
        if self.ch() in (110, 112):
            cy = self.ch()
            self.p += 1
        if not bytes((self.ch(),)).isspace():
            self.fail('Command suffix unexpected')
        self.skip()
        shf, fn = self.name_arg(cy, 1, 0)
        if not shf and fn and fn not in self.files:
            raise Unspec()              # loses the buffer
        self.st = model.State()
        self.step()
        self.undo = None
        self.undo_nonempty = False
        self.marks = [m if m is model.HEAD else None for m in self.marks]
        if shf:
            d, rc = self.shell(fn, None)
            size = self.insert_stream(d, 0)
            if not self.scripted:
                self.put(b'!\n')
        else:
            if fn:
                self.name = fn
            nm = self.default_name()
            size = self.insert_stream(self.read_data(nm if nm else b'/dev/null'), 0)
            if self.verbose and self.name is not None:
                self.put(self.name + b'\n')
        self.show_size(size)
        if not (self.plain or self.scripted or self.exit_on_error):
            self.status = 0
        return 0

    def c_r(self):
        if self.is_glob and not self.bare():
            self.is_glob = False
            return model.Ed.c_r(self)
        if not self.is_glob:
            return self.first(model.Ed.c_r)
        return self.listed(model.Ed.c_r, not self.name, True)

    def bare(self):
        """Is there an argument?"""
        i = self.p
        if not bytes((self.ch(),)).isspace():
            return False
        while i < len(self.s) and self.s[i] in (32, 9, 11, 12, 13):
            i += 1
        return i < len(self.s) and self.s[i] != NL

    def first(self, f):
        """The first file named on the command line is announced."""
        if not self.print_first:
            return f(self)
        old = self.show_size
        def show(n):
            if len(self.flist) - self.at > 1 and self.name is not None:
                self.put(self.name + b'\n')
            old(n)
        self.show_size = show
        try:
            return f(self)
        finally:
            del self.__dict__['show_size']

    def listed(self, f, replace, say):
        """Run f with its name taken from a pattern."""
        old = self.file_arg
        got = []
        def arg():
            if got:
                return old()
            got.append(1)
            self.file_arg = old
            r = self.name_arg(1, replace, 1)
            got.append(r)
            return r
        self.file_arg = arg
        size = self.show_size
        def show(n):
            if self.verbose and not got[1][0]:
                self.put(self.told(got[1][1]) + b'\n')
            size(n)
        self.show_size = show
        self.is_glob, g = False, self.is_glob
        # (name_arg looks at is_glob)
        na = self.name_arg
        def with_glob(*a):
            self.is_glob = True
            try:
                return ListEd.name_arg(self, *a)
            finally:
                self.is_glob = False
        self.name_arg = with_glob
        try:
            return f(self)
        finally:
            for k in ('file_arg', 'show_size', 'name_arg'):
                self.__dict__.pop(k, None)

    def told(self, fn):
        return fn

    def c_w(self):
        if not self.is_glob:
            return model.Ed.c_w(self)
        # ~wn, ~wp, ~wq, ~w
        cy = 0
        if not (self.addrs or self.lines):
            self.start = self.end = 0
        else:
            self.valid_range(1, self.lines)
        if self.posix and not bytes((self.ch(),)).isspace():
            self.fail('Command suffix unexpected')
        if self.ch() in (110, 112):
            cy = self.ch()
            self.p += 1
            self.s = self.s[:self.p] + b' ' + self.s[self.p:] if self.ch() == NL else self.s
        i = self.p
        if cy == 0 and self.ch() == 113:
            i += 1
        if i < len(self.s) and not self.s[i:i + 1].isspace():
            self.fail('Command suffix unexpected')
        while i < len(self.s) and self.s[i] in (32, 9, 11, 12, 13):
            i += 1
        arg = i < len(self.s) and self.s[i] != NL
        if cy and (self.globf or self.frames):
            raise Unspec()
        if arg:
            self.listed(model.Ed.c_w, not self.name, True)
        else:
            self.is_glob = False
            model.Ed.c_w(self)
        if cy:
            if self.st.modified and not self.scripted:
                raise EdErr(EMOD)
            raise EdErr(EOF_NEXT if cy == 110 else EOF_PREV)
        return 0

    def handle(self, status):
        if status in (EOF_NEXT, EOF_PREV):
            if self.plain:
                raise Unspec()
            if len(self.flist) - self.at <= 0:
                if self.stray:
                    raise Unspec()
                return                   # no list
            self.note('list-write-and-go')
            self.internal(b'~En\n' if status == EOF_NEXT else b'~Ep\n')
            return
        return model.Ed.handle(self, status)

    def internal(self, cmd):
        self.s, self.p = cmd, 0
        self.addrs = self.start = self.end = 0
        self.globf = 0
        try:
            self.command()
            self.print_first = False
        except EdErr as e:
            self.print_first = False
            del self.frames[:]
            self.handle(e.status)

    def one(self):
        if not self.started:
            self.started = True
            self.internal(b'r ' + self.flist[0] + b'\n')
        model.Ed.one(self)


NAMES = [b'a1', b'a2', b'b1', b'b2', b'c', b'w x', b'.hid', b'sub/x1', b'sub/x2', b'dir/x1', b'aa', b'A1', b'-x', b'$v;#', b"it's", b'\xc3\xa9t']
PATS = [b'a1', b'a2', b'b1', b'c', b'aa', b'A1', b'a*', b'*1', b'b?', b'?', b'??', b'*', b'[ab]1', b'[!a]*', b'[a-b]2', b'w\\ x',
        b'w*', b'w?x', b'.h*', b'.*', b'sub/*', b'sub/x1', b's*/x2', b'*/x1', b'*/*', b'sub/new', b'*/new', b'no*', b'no', b'nodir/x',
        b'n?/x', b'[', b'a[', b'a1 b1', b'b* a*', b'no a1', b'a1 no b1', b'c c', b'\ta1  b1 ', b'*2 *1', b'new', b'new2', b'[ab', b'*x*',
        b'a1 nodir/x', b'[[]', b'[]a]1', b'[^a]1', b'a\\ 1', b'a*1 ', b'? ??', b'~/x1', b'~/*', b'~/new', b'~/x[!2]', b'-*', b'$*', b'$v;#', b'*s', b'\xc3*', b'??t', b'-x']


class ListGen(gen.Gen):
    FN = [b'a1', b'b1', b'c', b'new', b'w x', b'sub/x1', b'aa']

    def pats(self, one=False):
        if one or self.chance(.6):
            return self.pick(PATS)
        return b' '.join(self.pick(PATS) for _ in range(self.r.randint(1, 4)))

    def g_le(self):
        c = self.pick([b'~e', b'~E', b'~E'])
        x = self.r.random()
        if x < .5:
            return c + b' ' + self.pats() + b'\n'
        if x < .85:
            return c + self.pick([b'n', b'n', b'p']) + b'\n'
        if x < .95:
            return c + b'\n'
        return c + self.pick([b'x', b'q', b'nn', b'n a1', b'p b*', b' !echo x', b'nx']) + b'\n'

    def g_lf(self):
        x = self.r.random()
        if x < .35:
            return b'~f ' + self.pats() + b'\n'
        if x < .6:
            return b'~f\n'
        if x < .95:
            return b'~f' + self.pick([b'n', b'n', b'p']) + b'\n'
        return b'~f' + self.pick([b'x', b'n a1', b'p *']) + b'\n'

    def g_lw(self):
        x = self.r.random()
        a = self.a2() if self.chance(.3) else b''
        if x < .35:
            return a + b'~w' + self.pick([b'n', b'n', b'p']) + b'\n'
        if x < .6:
            return a + self.pick([b'~w ', b'~W ', b'~w ', b'w ', b'W ']) + self.pats(True) + b'\n'
        if x < .8:
            return a + self.pick([b'~w', b'~W', b'w', b'w', b'W']) + b'\n'
        if x < .9:
            return a + self.pick([b'~wn ', b'~wp ']) + self.pats(True) + b'\n'
        return a + self.pick([b'~w q', b'~wx', b'~Wn', b'~Wp', b'~wnp', b'wn', b'wp', b'~w !cat', b'~W !cat']) + b'\n'

    def g_lr(self):
        if self.m.lines > self.maxlines:
            return b'1,$d\n'
        return self.a1(True) + self.pick([b'~r ', b'~r ', b'r ']) + self.pats(True) + b'\n' if self.chance(.85) else \
            self.a1(True) + self.pick([b'~r\n', b'r\n', b'~rn\n', b'~r !echo x\n', b'~rx\n'])

    def g_lwalk(self):
        u = self.pick([b'~E ', b'~E ', b'~f ', b'~E ']) + self.pick([b'*', b'*1', b'a*', b'b* a*', b'?? *', b'*/*', b'c c a*', b'[ab]*',
                                                                    b'a* sub/*', b'sub/* *1', b'? ?? new']) + b'\n'
        for _ in range(self.r.randint(2, 8)):
            u += self.pick([b'~En\n', b'~En\n', b'~fn\n', b'~wn\n', b'~wn\n', b'~Ep\n', b'~fp\n', b'~wp\n', b'~E\n', b'1d\n~wn\n', b'0r c\nw\n',
                            b'1t.\n~wn\n', b'~f\n', b'f\n', b'~w new\n', b'r *1\n', b'~r c\n', b'E a1\n', b'$m0\n~w\n', b'u\n', b'f b1\n', b'~w\n'])
        return u

    def g_le0(self):
        return self.pick([b'e a1\n', b'E b1\n', b'e\n', b'E c\n', b'f a1\n', b'f no\n', b'f\n', b'E sub/x1\n'])

    def g_pre(self):
        return self.pick([b'~p', b'~n', b'~d', b'~', b'~~e a1', b'1~e a1', b'1,2~f', b'~q', b'<1~f', b'~<1f', b'~f\t', b'~ f', b'~a',
                          b'~m0', b'~t0', b'~@']) + b'\n'

    def g_lg(self):
        if self.m.lines > self.maxlines:
            return b'1,$d\n'
        return b'g/%s/' % self.pick([b'1', b'.', b'x', b'^c']) + \
            b'\\\n'.join(self.pick([b'~r a1', b'~r b1', b'p', b'1r c', b'~w new', b'~r no', b'.=', b'~f', b'~fn', b'n', b's/1/z/', b'~w',
                                    b'~r *', b'~r', b'd', b'0~r c'])
                         for _ in range(self.r.randint(1, 3))) + b'\n'


W = dict(lwalk=3, a=2, i=1, d=2, c=.5, le=8, lf=4, lw=6, lr=3, le0=2, pre=.7, lg=.8, p=1, u=1.5, h=.5, s=1, k=.5, mark_use=.5, m=.5, q=.3, reg_w=.5,
         reg_r=.5, mac_def=.2, mac_run=.3)


def make(seed):
    r = random.Random('lists/%d' % seed)
    files = {}
    for n in r.sample(NAMES, r.randint(2, len(NAMES))):
        x = r.random()
        files[n] = b'' if x < .1 else b''.join(
            b'%s line %d%s\n' % (n, i + 1, r.choice([b'', b' end', b' x'])) for i in range(r.randint(1, 5)))
        if x > .92:
            files[n] = files[n][:-1]
    dirs = {b'sub', b'dir'}
    v = r.choice([dict(), dict(), dict(scripted=True), dict(verbose=True), dict(verbose=True, scripted=True), dict(prompt=b'*'),
                  dict(verbose=True)] * 3 + [dict(trad=True), dict(posix=True)])
    args = []
    env = {'HOME': 'sub'}
    if v.get('scripted'):
        args.append('-s')
    if v.get('verbose'):
        args.append('-v')
    if v.get('prompt'):
        args += ['-p', '*']
    if v.get('trad'):
        args.append('-G')
    if v.get('posix'):
        env['POSIXLY_CORRECT'] = '1'
    argv = []
    if r.random() < .5:
        argv = [r.choice([n for n in sorted(files) if n[:1] not in b'.-' and n.isascii()] or [b'no']) if r.random() < .9 else b'no'
                for _ in range(r.choice((1, 2, 2, 3, 4)))]
    g = ListGen(r.randrange(1 << 60), W)
    mopts = dict(v, scripted=bool(v.get('scripted')), dirs=dirs, argv=argv)
    g.maker = lambda **kw: ListEd(**kw)
    c = g.case(r.randint(4, 30), files=files, args=args + [a.decode() for a in argv], mopts=mopts, env=env)
    c.files = dict([(d, None) for d in sorted(dirs)] + list(c.files.items()))
    return c, g


def batch(seeds):
    part = core.Part()
    for s in seeds:
        c, g = make(s)
        part.dropped += g.dropped
        core.run_case(part, c, s)
        if part.bads:
            break
        if sum(x for k, x in c.cov.items() if k.startswith('list-')) > 1:
            part.seen(c.script + repr(c.args).encode())
        for k, x in c.cov.items():
            part.add(k, x)
        part.add('commands', c.cmds)
        part.add('errors-expected', c.errors)
    return part


def jobs(ctx, n, chunk=20):
    s0 = ctx.seed * 1000003 + 800000000
    return [(batch, (range(s0 + k, s0 + min(n, k + chunk)),)) for k in range(0, n, chunk)]
