"""Sessions no model predicts: mutated scripts, arguments, environment and
files, run as a user without rights.  Decided: no sanitizer report, no fatal
signal, an end in time."""
import random, re

from . import confine, core, gen, profiles, run

NUMS = [b'0', b'1', b'2', b'-1', b'+', b'9', b'23', b'24', b'79', b'80', b'2147483647', b'2147483648',
        b'4294967295', b'4294967296', b'9223372036854775807', b'9223372036854775808',
        b'18446744073709551616', b'99999999999999999999999999', b'007', b'1e3']
TOK = [b'%', b';', b',', b'\\', b'/', b'?', b'[', b']', b'\\(', b'\\)', b'\\{', b'\\}', b'\\1', b'\\9',
       b'*', b'.', b'$', b'^', b'&', b'\\&', b'~', b'[[:alpha:]]', b'[[.a.]]', b'[a-', b'[]', b'[^',
       b'g/./', b'v/a/', b'G/b/', b'V/./', b's/', b's/a/b/', b's/\\(.\\)/\\u\\1/', b's//%/', b'sg', b'sr',
       b'sp', b's3', b'-1', b'/g', b'/p', b'/2', b'/g2', b'/2g', b'/g-1', b'/$', b'@a', b'@', b'@@', b'@:',
       b'>a', b'<a', b'>>a', b'<<a', b'>', b'<', b'>a<b', b'>:', b'<:', b'"a', b"'a", b"'z", b"''",
       b'ka', b'kA', b'k', b'u', b'uu', b'z', b'Z', b'z5', b'Z5', b']', b'[', b']3', b'[3', b'zn', b'Zl',
       b'zp', b'h', b'H', b'P', b'p', b'n', b'l', b'pnl', b'=', b'f', b'f x', b'f !', b'e', b'E', b'r', b'w',
       b'W', b'wq', b'q', b'Q', b'r f1', b'r f2', b'w out', b'W out', b'e f2', b'E f1', b'e empty',
       b'~e f*', b'~E f?', b'~f f*', b'~en', b'~ep', b'~fn', b'~fp', b'~wn', b'~wp', b'~r f1', b'~w out',
       b'~W out', b'~f', b'~e', b'~q', b'~s', b'~', b'!', b'!!', b'!%', b'r !x', b'w !x', b'r !', b'a', b'i',
       b'c', b'd', b'j', b'm', b't', b'm0', b't0', b'm$', b't.', b'mka', b'\0', b'\xff', b'\xc3', b'\xe2\x82',
       b'\xf0\x90\x80', b'\xed\xa0\x80', b'\x1b[1m', b'\x1b[', b'\t', b'\b', b'\f', b'\r', b' ', b'  ', b'#',
       b':', b'|', b'\n', b'\n.\n', b'.\n', b'\\\n', b'a\\', b'\n\n', b'x', b'y', b'&', b'_', b'`', b'{', b'}',
       b'(', b')', b'[.x.]', b'\\n', b'\\x41', b'\\u', b'\\U', b'\\l', b'\\L', b'\\E', b'\\e', b'\\c', b'\\<',
       b'\\>', b'\\b', b'\\w', b'\\W', b'\\`', b"\\'", b'\\{1,2\\}', b'\\{0\\}', b'\\{2,\\}', b'\\{,2\\}']


def mutate(r, s, other):
    s = bytearray(s)
    for _ in range(r.choice([1, 1, 2, 3, 5, 8, 15])):
        n = len(s)
        i = r.randrange(n + 1)
        k = r.randrange(13)
        if k == 0:
            del s[i:i + r.choice([1, 1, 2, 5, 20])]
        elif k == 1:
            j = i + r.choice([1, 2, 5, 20, 80])
            p = r.randrange(n + 1)
            s[p:p] = s[i:j] * r.choice([1, 1, 1, 3])
        elif k == 2:
            s[i:i] = bytes([r.randrange(256)])
        elif k == 3 and i < n:
            s[i] = r.choice([s[i] ^ (1 << r.randrange(8)), r.randrange(256)])
        elif k in (4, 5, 6, 7):
            s[i:i] = r.choice(TOK)
        elif k == 8:
            m = list(re.finditer(rb'[0-9]+', s))
            if m:
                m = r.choice(m)
                s[m.start():m.end()] = r.choice(NUMS)
        elif k == 9:
            ls = bytes(s).split(b'\n')
            o = other.split(b'\n')
            p = r.randrange(len(ls) + 1)
            q = r.randrange(len(o))
            ls[p:p] = o[q:q + r.choice([1, 1, 2, 4])]
            s = bytearray(b'\n'.join(ls))
        elif k == 10:
            ls = bytes(s).split(b'\n')
            p, q = r.randrange(len(ls)), r.randrange(len(ls))
            ls[p], ls[q] = ls[q], ls[p]
            s = bytearray(b'\n'.join(ls))
        elif k == 11:
            # token at the beginning or end of a line
            m = [x.start() + 1 for x in re.finditer(rb'\n', s)] or [0]
            p = r.choice(m)
            if r.random() < .5 and p:
                p -= 1
            s[p:p] = r.choice(TOK)
        elif k == 12:
            t = b''.join(r.choice(TOK + NUMS) for _ in range(r.randint(1, 6)))
            m = [x.start() + 1 for x in re.finditer(rb'\n', s)] or [0]
            s[r.choice(m):0] = b''
            p = r.choice(m)
            s[p:p] = t + b'\n'
    if r.random() < .15:
        del s[r.randrange(len(s) + 1):]
    return bytes(s[:60000])


def rnd(r, n):
    k = r.randrange(4)
    if k == 0:
        return bytes(r.randrange(256) for _ in range(n))
    if k == 1:
        return bytes(r.choice(b'ab \n') for _ in range(n))
    if k == 2:
        return ''.join(r.choice('a\u00e9\u4e2d\U0001f600\n ') for _ in range(n)).encode()
    return bytes(r.choice(b'a\n\0\xff\xc3\x08\t\x1b') for _ in range(n))


def arguments(r):
    a = []
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        a += r.choice([['-s'], ['-s'], ['-s'], ['-v'], ['-E'], ['-G'], ['-p', '*'], ['-p', ''], ['-r'], ['-l'],
                       ['-R'], ['-V'], ['-h'], ['-e', 'p'], ['-e', '1,$n'], ['-f', 'f1'], ['-f', 'scr'],
                       ['-i'], ['-i.bak'], ['-w', '40'], ['-z'], ['-'], ['--'], ['-x'], ['--help'], ['-ev'],
                       ['-A'], ['-a'], ['-q'], ['-I'], ['-n'], ['-es/a/b/'], ['--version'], ['-se', 'p']])
    for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
        a.append(r.choice(['f1', 'f2', 'bin', 'empty', 'no', '+', '+2', '+/a', '+?b', '+$', '+0', '+99', '+/',
                           '+//', '', '.', '-', 'scr', '!x', '/dev/null', '+/a/,$', '+1p']))
    return a


def environment(r):
    e = {}
    for k, vs in (('LINES', ['', '0', '1', '2', '3', '5', '24', '-1', '99999999999', 'x', '1000']),
                  ('COLUMNS', ['', '0', '1', '2', '7', '8', '9', '16', '80', '-5', '99999999999', 'x', '300']),
                  ('ED', ['', ' ', '-s', '-v -p *', '-s -E', '  -s  ', '-', 'f1', '-e p', '-Z', "-p 'a b'"]),
                  ('POSIXLY_CORRECT', ['', '1']), ('TERM', ['', 'xterm-256color', 'dumb']),
                  ('HOME', ['', None, '/nonexistent'])):
        if r.random() < .15:
            e[k] = r.choice(vs)
    return e


def make(seed):
    r = random.Random('fuzz/%d' % seed)
    pr = profiles.P['MIX']
    src = []
    for _ in range(2):
        w, vs, _ = r.choices(pr['profiles'], [p[2] for p in pr['profiles']])[0]
        w = dict(w)
        for k in r.sample(sorted(w), 6):
            w[k] *= 5
        v = r.choice(vs)
        g = gen.Gen(r.randrange(1 << 60), w, **dict(v['gen'], longlines=.003))
        files = dict(profiles.BASE)
        c = g.case(r.randint(3, 25), files=files, args=v['args'], mopts=v['mopts'],
                   locale=v['locale'], env=v['env'])
        src.append(c)
    c = src[0]
    s = mutate(r, c.script, src[1].script).replace(b'/dev/full', b'/dev/null')
    files = dict(profiles.BASE)
    files[b'bin'] = rnd(r, r.choice([0, 1, 5, 80, 600, 5000]))
    files[b'scr'] = mutate(r, src[1].script, c.script)[:3000]
    args = list(c.args) if r.random() < .5 else arguments(r)
    if r.random() < .4:
        args = args + [r.choice(['f1', 'bin', 'bin', 'f2'])]
    env = dict(c.env)
    env.update(environment(r))
    return run.Case(s, args, env, files, c.locale)


def lists(seed):
    """Sessions about lists of files."""
    r = random.Random('lists/%d' % seed)
    o = b'\n'.join(confine.file_lists(r)) + b'\n'
    if r.random() < .1:
        o = mutate(r, o, o)
    args = r.choice([[], ['-s'], ['-s'], ['-v'], ['-i', '-e', 'p'], ['-G']]) + r.choice(
        [[], [], ['f1'], ['f1', 'f2'], ['no', 'f1'], ['f1', 'no'], ['sub', 'f1'], ['!echo x', 'f2'], ['f1', '!echo x'],
         ['!true'], ['f1', 'f2', 'f1', 'sub/in'], ['']])
    files = dict(profiles.BASE)
    files.update({b'sub': None, b'sub/in': b'inner\n', b'ld': None})
    return run.Case(o, args, {}, files, 'C')


def one(part, seed, variant, timeouts=False, limit=15):
    ctx = core.CTX
    c = lists(seed) if seed % 5 == 4 else make(seed)
    pre = run.confine_small if timeouts else None
    x = run.run(ctx.exe(variant), c, ctx.base, timeout=limit, confined=True, preexec=pre)
    part.evals += 1
    d = run.crashed(x)
    if x.timeout:
        part.add('slow')
        if timeouts:
            d.append(('timeout', 'no exit within %d s' % limit))
    if d and not timeouts:
        d = [y for y in d if y[0] != 'timeout']
    if timeouts:
        d = [y for y in d if y[0] == 'timeout']
    if d:
        y = run.run(ctx.exe(variant), c, ctx.base, timeout=2 * limit, confined=True, preexec=pre)
        if y.timeout if timeouts else run.crashed(y):
            part.bads.append(core.Bad(d[0][0], '; '.join('%s: %s' % z for z in d) + ' [%s]' % variant,
                                      c, seed, variant, extra={'stderr': x.stderr[-3000:].decode('latin1')}))
        else:
            part.inconclusive += 1
    n = len(x.records or ())
    part.add('fuzz-state-records', n)
    part.add('fuzz-exit-%s' % x.exit)
    part.add('fuzz-errors', x.stdout.count(b'?\n'))
    if n > 2:
        part.seen(c.script)
    if n > 5 and not part.samples:
        part.samples.append(core.sample_of(c, x))
    return x


def batch(seeds, variant, timeouts=False):
    part = core.Part()
    for s in seeds:
        one(part, s, variant, timeouts)
        if part.bads:
            break
    return part


def jobs(ctx, n, variant='asan', timeouts=False, chunk=20, salt=0):
    s0 = ctx.seed * 10000019 + salt
    return [(batch, (range(s0 + i, s0 + min(n, i + chunk)), variant, timeouts))
            for i in range(0, n, chunk)]
