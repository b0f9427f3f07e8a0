"""Encryption: sessions that set keys and write and read under them, against
the reference model; then every enciphered file is judged as it lies on disk
and read back by another session."""
import os, random

from . import core, gen, model, run
from .model import EdErr, Unspec
from .run import Case

BITS = b'01'
HEX = b'0123456789abcdefABCDEF'


def canon(k):
    """The key proper, or None if it is not valid."""
    if k[:2] in (b'0b', b'0B'):
        b = k[2:66]
        if len(b) != 64 or any(c not in BITS for c in b):
            return None
        return ('n', int(b, 2).to_bytes(8, 'big'))
    if k[:2] in (b'0x', b'0X'):
        b = k[2:18]
        if len(b) != 16 or any(c not in HEX for c in b):
            return None
        return ('n', bytes.fromhex(b.decode()))
    return ('a', k[:8])


class CryptEd(model.Ed):
    SNAP_SHALLOW = model.Ed.SNAP_SHALLOW + ('enc',)

    def __init__(self, key=None, **kw):
        model.Ed.__init__(self, **kw)
        self.key = canon(key) if key else None
        self.enc = {}                    # name -> (key, as typed)
        self.typed = key

    def c_x(self):
        if self.addrs:
            self.fail('Address unexpected')
        io = self.suffix()
        if self.frames or self.ip >= len(self.inp):
            raise Unspec()
        k = self.inp[self.ip]
        if not k.endswith(b'\n') or b'\0' in k:
            raise Unspec()
        self.ip += 1
        self.texts[-1].append(k)
        k = k[:-1]
        if not k:
            self.key = None
            self.note('key-off')
            return io
        c = canon(k)
        if c is None:
            self.note('key-invalid')
            self.fail('Invalid key')
        self.key, self.typed = c, k
        self.note('key-set')
        return io

    def shell(self, cmd, inp):
        if self.key and self.cc in 'rweE':
            raise Unspec()
        return model.Ed.shell(self, cmd, inp)

    def read_data(self, fn):
        d = model.Ed.read_data(self, fn)
        if d and fn in self.files:
            e = self.enc.get(fn)
            if (e[0] if e else None) != self.key:
                raise Unspec()
            if e:
                self.note('deciphered')
                self.note('deciphered:%d' % (len(d) % 8))
        elif fn == b'/dev/null':
            pass
        return d

    def show_size(self, n):
        if self.key and n > 0:
            n += 8 - n % 8
        model.Ed.show_size(self, n)

    def c_w(self):
        old = dict(self.files)
        app = self.cc == 'W'
        try:
            return model.Ed.c_w(self)
        finally:
            for n, f in self.files.items():
                o = old.get(n)
                if o is f:
                    continue
                if app and o is not None and o.data and (self.key or n in self.enc):
                    raise Unspec()      # (a part enciphered by itself)
                if self.key and f.data:
                    self.enc[n] = (self.key, self.typed)
                    self.note('enciphered')
                    self.note('enciphered:%d' % (len(f.data) % 8))
                else:
                    self.enc.pop(n, None)


class CryptGen(gen.Gen):
    FN = [b'e1', b'e2', b'e3', b'p1', b'p2', b'b1', b'out']
    KEYS = [b'key', b'another', b'12345678', b'0x0123456789abcdef', b'0XFEDCBA9876543210', b'0b' + b'01' * 32, b'0B' + b'1100' * 16,
            b'k', b'pass word', b' ', b'\xc3\xa9\xff\x80', b'longerthaneight', b'0', b'0z', b'ABCDEFGH']
    BADKEYS = [b'0x123', b'0b0101', b'0x', b'0b', b'0xz123456789abcdef', b'0b' + b'01' * 31 + b'02', b'0x0123456789abcde', b'0x 123456789abcde',
               b'0x01234567-9abcdef', b'0b' + b'01' * 31 + b' 1']

    def g_key(self):
        x = self.r.random()
        if x < .6:
            return b'x\n' + self.pick(self.keys) + b'\n'
        if x < .85:
            return b'x\n\n'
        if x < .93:
            return b'x\n' + self.pick(self.BADKEYS) + b'\n'
        return self.pick([b'1x\n', b'xp\n' + self.keys[0] + b'\n', b'xn\n\n', b'xz\n', b'x 1\n', b',x\n'])

    def g_round(self):
        """Write, read back."""
        f = self.pick([b'e1', b'e2', b'e3'])
        u = self.pick([b'w ', b'w ', b',w ', b'1w ', b'1,2w ', b'$w ', b'.w ', b'2,$w ']) + f + b'\n'
        return u + self.pick([b'E ' + f + b'\n', b'1,$d\nr ' + f + b'\n', b'r ' + f + b'\n', b'0r ' + f + b'\n', b'$r ' + f + b'\n', b'e ' + f + b'\n', b'',
                              b'E ' + f + b'\nE ' + f + b'\n', b'u\n', b'1r ' + f + b'\nu\n'])

    def g_fill(self):
        """Text of a chosen length."""
        n = self.r.choice([1, 2, 3, 7, 8, 9, 15, 16, 17, 23, 24, 31, 64, self.r.randint(0, 200), self.r.randint(0, 200)])
        if self.r.random() < .03:
            n = self.r.choice([4088, 4096, 4095, 8192, 4104, 5000])
        t = bytearray()
        while len(t) < n:
            k = self.r.choice([0, 0, 1, 2, 3, 6, 7, 8, 9, self.r.randint(0, 70)])
            k = min(k, n - len(t) - 1)
            t += bytes(self.r.choice(self.sym) for _ in range(max(0, k))) + b'\n'
        ls = [b' ' + l if l == b'.' else l for l in bytes(t).split(b'\n')[:-1]]
        return self.pick([b'$a\n', b'0a\n', b'$a\n', b'1,$c\n' if self.m.lines else b'a\n']) + b''.join(l + b'\n' for l in ls) + b'.\n'


W = dict(key=4, round=7, fill=5, a=1, d=2, w=3, r=3, e=1.5, e0=.5, f=.5, s=1, j=.7, m=.7, t=.7, u=1.5, g=.5, p=.7, k=.3, h=.3, reg_w=.3, reg_r=.3,
         mac_def=.15, mac_run=.15)
W = {k: v for k, v in W.items() if hasattr(CryptGen, 'g_' + k)}


def make(seed):
    R = random.Random('crypt/%d' % seed)
    files = {}
    for n in (b'p1', b'p2', b'b1'):
        if R.random() < .8:
            ln = R.choice([0, 1, 7, 8, 9, 15, 16, R.randint(0, 64), R.randint(0, 64), R.randint(0, 300)])
            alpha = b'ab\n\n xyz' if n != b'b1' else bytes(range(256)) + b'\n\n\n\n\n\n\0\0'
            d = bytes(R.choice(alpha) for _ in range(ln))
            if n != b'b1' and d and R.random() < .9:
                d = d[:-1] + b'\n'
            files[n] = d
    v = R.choice([dict(), dict(), dict(scripted=True), dict(verbose=True), dict(verbose=True, scripted=True), dict(trad=True), dict(posix=True)])
    args, env = [], {}
    if v.get('scripted'):
        args.append('-s')
    if v.get('verbose'):
        args.append('-v')
    if v.get('trad'):
        args.append('-G')
    if v.get('posix'):
        env['POSIXLY_CORRECT'] = '1'
    g = CryptGen(R.randrange(1 << 60), W)
    g.keys = R.sample(g.KEYS, R.choice((1, 1, 2, 3)))
    g.sym = R.choice([b'abc', bytes(range(32, 127)), bytes(c for c in range(256) if c not in (0, 10)), b'\x00ab\xff'])
    first = g.pick(g.keys) if R.random() < .3 else None
    if first:
        args.append('-x')
        if canon(first) is None:
            first = b'key'
    g.maker = lambda **kw: CryptEd(key=first, **kw)
    c = g.case(R.randint(4, 25), files=files, args=args, mopts=dict(v, scripted=bool(v.get('scripted'))), env=env)
    if first:
        c.script = first + b'\n' + c.script
    m = g.m
    c.enc = {n: e for n, e in m.enc.items()}
    c.plain = {n: c.out_files.pop(n) for n in list(c.enc)}
    return c, g


def windows(d):
    return {d[i:i + 8] for i in range(len(d) - 7)}


def on_disk(name, b, plain):
    """An enciphered file as it lies on disk."""
    d = []
    if b is None:
        return [('file', '%r: not written' % name)]
    if len(b) != len(plain) + 8 - len(plain) % 8:
        d.append(('file', '%r: %d bytes for %d of text' % (name, len(b), len(plain))))
    if len(plain) >= 8 and windows(plain) & windows(b):
        d.append(('file', '%r: text shows in the enciphered file' % name))
    elif plain and plain in b and len(plain) > 3:
        d.append(('file', '%r: text shows in the enciphered file' % name))
    return d


def judge(exe, ctx, c):
    r = run.run(exe, c, ctx.base, timeout=core.CASE_TIMEOUT)
    got = {n: r.files.pop(n, None) for n in c.enc}
    d = run.compare(c, r, ctx.hook)
    if d:
        return d
    for n in sorted(c.enc):
        d += on_disk(n, got[n], c.plain[n])
    if d or not c.enc:
        return d
    # another session
    script, files, want = b'', {}, b''
    for n in sorted(c.enc):
        p = c.plain[n]
        script += b'x\n' + c.enc[n][1] + b'\nE ' + n + b'\nx\n\nw ' + n + b'.txt\nf\n'
        files[n] = got[n]
    k = Case(script + b'Q\n', ['-s'], {}, files, c.locale)
    r = run.run(exe, k, ctx.base, timeout=core.CASE_TIMEOUT)
    d += run.crashed(r)
    for n in sorted(c.enc):
        p = c.plain[n]
        g = r.files.get(n + b'.txt')
        if g != p and not (b'\0' not in p and not p.endswith(b'\n') and g == p + b'\n'):
            d.append(('file', '%r: another session reads %s, written %s (key %r)' % (n, run.short(g), run.short(p), c.enc[n][1])))
        if r.files.get(n) != got[n]:
            d.append(('file', '%r: changed by reading' % n))
    return d


def batch(seeds):
    part = core.Part()
    ctx = core.CTX
    exe = ctx.exe('asan')
    for s in seeds:
        c, g = make(s)
        part.dropped += g.dropped
        part.evals += 1
        d = core.keep(ctx.pid, judge(exe, ctx, c))
        if d:
            d = core.keep(ctx.pid, judge(exe, ctx, c)) or core.keep(ctx.pid, judge(exe, ctx, c))
            if not d:
                part.inconclusive += 1
        if d:
            part.bads.append(core.Bad(d[0][0], '; '.join('%s: %s' % x for x in d[:4]), c, s, 'asan'))
            break
        if c.enc or c.cov.get('enciphered'):
            part.seen(c.script + repr(c.args).encode())
        for k, x in c.cov.items():
            part.add(k, x)
        part.add('commands', c.cmds)
        part.add('files-read-by-another-session', len(c.enc))
    return part


# -- every length and content of the last blocks ---------------------------------

def other_key(R, k):
    """A key that must not read what k wrote, often much like it."""
    c = canon(k)
    if R.random() < .3:
        return R.choice([x for x in CryptGen.KEYS if canon(x) != c and x[:1] != k[:1]])
    if c[0] == 'n':                         # (the low bit of every byte is parity)
        b = bytearray(c[1])
        b[R.randrange(8)] ^= 2 << R.randrange(7)
        if R.random() < .5:
            return R.choice([b'0x', b'0X']) + (b.hex() if R.random() < .5 else b.hex().upper()).encode()
        return R.choice([b'0b', b'0B']) + ''.join('{:08b}'.format(x) for x in b).encode()
    while True:
        b = bytearray(c[1])
        i = R.choice([0, len(b) - 1, 7, R.randrange(8)])
        if i < len(b):
            b[i] = R.randrange(32, 127) if b[i] < 128 else 97
        else:
            b.append(R.randrange(33, 127))
        if bytes(b) != c[1] and b[:2] not in (b'0x', b'0X', b'0b', b'0B') and b'\n' not in b:
            return bytes(b) + (b'tail' if len(b) == 8 and R.random() < .5 else b'')


def same_key(R, k):
    """The same key written otherwise."""
    c = canon(k)
    if c[0] == 'a':
        return k + R.choice([b'', b'x', b' tail', b'0']) if len(k) >= 8 else k
    x = c[1].hex()
    return R.choice([b'0x' + x.encode(), b'0X' + x.encode(), b'0x' + x.upper().encode(), b'0X' + x.upper().encode(),
                     R.choice([b'0b', b'0B']) + ''.join('{:08b}'.format(y) for y in c[1]).encode()])


def sweep(R):
    """Contents for one session of many round trips."""
    out = []
    for _ in range(R.randint(4, 10)):
        x = R.random()
        if x < .5:
            n = R.randint(1, 34)
            d = bytes(R.choice(b'a\n' if R.random() < .8 else b'ab\n\0\xff') for _ in range(n - 1)) + b'\n'
        elif x < .8:
            n = R.choice([4080, 4096, 4088, 8184, 8192, 8200, 65536]) + R.randint(-9, 9)
            d = bytes(R.getrandbits(8) for _ in range(64)) * (n // 64 + 1)
            d = d[:n - 1] + b'\n'
        else:
            n = R.randint(1, 300)
            d = bytes(R.getrandbits(8) for _ in range(n))
        if b'\0' not in d and not d.endswith(b'\n'):
            d += b'\n'
        out.append(d)
    return out


def sweep_batch(seeds):
    """Read plain files, write them enciphered, read those, write plain."""
    part = core.Part()
    ctx = core.CTX
    exe = ctx.exe('asan')
    for s in seeds:
        R = random.Random('sweep/%d' % s)
        ds = sweep(R)
        k = R.choice([x for x in CryptGen.KEYS])
        k2 = other_key(R, k)
        ka = same_key(R, k)
        files = {b'p%d' % i: d for i, d in enumerate(ds)}
        s1 = b''.join(b'x\n\nE p%d\nx\n%s\nw e%d\nx\n%s\nw f%d\n' % (i, k, i, k2, i) for i in range(len(ds)))
        s2 = b''.join(b'x\n%s\nE e%d\nx\n\nw q%d\nx\n%s\nE e%d\nx\n\nw z%d\n' % (ka, i, i, k2, i, i) for i in range(len(ds)))
        two = R.random() < .5
        part.evals += 1

        def judge():
            c = Case(s1 + (b'' if two else s2) + b'Q\n', ['-s'], {}, files)
            r = run.run(exe, c, ctx.base, timeout=core.CASE_TIMEOUT, trace_on=False)
            d = run.crashed(r)
            if two:
                r1 = r
                c = Case(s2 + b'Q\n', ['-s'], {}, r.files)
                r = run.run(exe, c, ctx.base, timeout=core.CASE_TIMEOUT, trace_on=False)
                d += run.crashed(r)
            if r.timeout:
                return c, d + [('timeout', 'no exit in time')]
            for i, p in enumerate(ds):
                e, f = r.files.get(b'e%d' % i), r.files.get(b'f%d' % i)
                d += on_disk(b'e%d' % i, e, p) + on_disk(b'f%d' % i, f, p)
                if e is not None and e[:8] == (f or b'')[:8] and len(p) >= 8:
                    d.append(('file', 'e%d: same under another key' % i))
                if r.files.get(b'q%d' % i) != p:
                    d.append(('file', 'q%d: read back %s, written %s (key %r)' % (i, run.short(r.files.get(b'q%d' % i)), run.short(p), k)))
                z = r.files.get(b'z%d' % i)
                if z is not None and len(p) > 8 and (z == p or z[:-1] == p):
                    d.append(('file', 'e%d: key %r reads what key %r wrote' % (i, k2, k)))
            return c, d
        c, d = judge()
        if d:
            c, d = judge()
        d = core.keep(ctx.pid, d)
        if d:
            part.bads.append(core.Bad(d[0][0], '; '.join('%s: %s' % x for x in d[:4]), c, s, 'asan'))
            break
        part.seen(repr(ds).encode('latin1'))
        part.add('round-trips', len(ds))
        for p in ds:
            part.add('round-trip:%d' % (len(p) % 8))
    return part


def append_probe():
    """What W adds to an enciphered file."""
    part = core.Part()
    ctx = core.CTX
    part.evals += 1
    c = Case(b'x\nkey\na\nalpha\n.\nw f\n1c\nbeta\n.\nW f\nE f\nx\n\nw g\nQ\n', ['-s'])
    r = run.run(ctx.exe('asan'), c, ctx.base, timeout=core.CASE_TIMEOUT, trace_on=False)
    part.add('append-probe')
    g = r.files.get(b'g')
    if g != b'alpha\nbeta\n' and not (b'?' in r.stdout and g == b'alpha\n'):
        part.bads.append(core.Bad('file', 'W to an enciphered file is not read back as written: %s' % run.short(g), c, 0, 'asan'))
    return part


def jobs(ctx, n, chunk=20):
    s0 = ctx.seed * 1000003 + 700000000
    return [(append_probe, ())] + [(batch, (range(s0 + k, s0 + min(n, k + chunk)),)) for k in range(0, n, chunk)] + \
        [(sweep_batch, (range(s0 + k, s0 + min(n // 2, k + chunk)),)) for k in range(0, n // 2, chunk)]
