"""Differential batches: generated sessions against the reference model."""
import random

from . import core, gen, profiles


def vary(r, files, v):
    """Other files to read: longer, binary, without final newline."""
    words = [b'a', b'b', b'ab', b'foo', b'', b'x x x', b'foo foo foo foo', b'aaaa', b'aXbXcX', b'end', b'abababab']
    for n in (b'f1', b'f2'):
        x = r.random()
        if x < .3:
            continue
        t = [r.choice(words) for _ in range(r.choice([1, 2, 3, 5, 8, 13]))]
        if x < .5:
            for _ in range(r.randint(1, 2)):
                t[r.randrange(len(t))] += r.choice([b'\0', b'\0z', b'\0\xff'])
        d = b'\n'.join(t) + b'\n'
        if x > .45 and x < .75:
            d = d[:-1]
        files[n] = d


def batch(name, seeds, nprof=None):
    part = core.Part()
    pr = profiles.P[name]
    for s in seeds:
        r = random.Random('%s/%d' % (name, s))
        w, vs, _ = r.choices(pr['profiles'], [p[2] for p in pr['profiles']])[0]
        v = r.choice(vs)
        g = gen.Gen(r.randrange(1 << 60), w, **v['gen'])
        files = dict(profiles.BASE)
        if r.random() < .4:
            vary(r, files, v)
        files.update(v['files'] or {})
        n = r.randint(*pr['units'])
        c = g.case(n, files=files, args=v['args'], mopts=v['mopts'], locale=v['locale'],
                   env=v['env'])
        c.argv0 = v['argv0']
        part.dropped += g.dropped
        res = core.run_case(part, c, s)
        if part.bads:
            break
        foc = sum(x for k, x in c.cov.items() if k.startswith(pr['focus']))
        if foc:
            part.seen(c.script)
        for k, x in c.cov.items():
            part.add(k, x)
        part.add('commands', c.cmds)
        part.add('errors-expected', c.errors)
        part.add('state-records', len(res.records or ()))
        if foc and len(part.samples) < 1:
            part.samples.append(core.sample_of(c, res))
    return part


def jobs(ctx, name=None, n=None, chunk=10):
    name = name or ctx.pid
    pr = profiles.P[name]
    n = n or pr['n'][0 if ctx.tier == 'quick' else 1]
    s0 = ctx.seed * 10000019
    return [(batch, (name, range(s0 + i, s0 + min(n, i + chunk))))
            for i in range(0, n, chunk)]
