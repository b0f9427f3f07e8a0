"""Large buffers and long lines: right output, within a generous CPU budget."""
import os, re, resource

from . import core, run

BUDGET = 25                               # seconds of CPU; all need well below one


def lines(n, f='%d'):
    return [(f % i).encode() for i in range(1, n + 1)]


def nl(ls):
    return b''.join(x + b'\n' for x in ls)


def pn(ls, a=1):
    w = len(str(len(ls)))
    return b''.join(b'%*d\t%s\n' % (w, i, x) for i, x in enumerate(ls, a))


def cases(big):
    """(name, file, script, expected output, expected file 'out')."""
    k = 4 if big else 1
    N = 60000 * k
    M = 3000 * k
    L = 600000 * k
    S = lines(N)
    T = lines(M)
    yield 'print', nl(S), b',p\n', nl(S), None
    yield 'number', nl(S), b',n\n', pn(S), None
    yield 'write', nl(S), b'w out\n', b'', nl(S)
    yield 'read', nl(S), b'$r f\n$=\n', b'%d\n' % (2 * N), None
    yield 'delete', nl(S), b'2,$-1d\n,p\nu\n$=\nw out\n', b'1\n%d\n%d\n' % (N, N), nl(S)
    yield 'move', nl(S), b'2,$m0\n1p\n$p\n2,$m0\nw out\n', b'2\n1\n', nl(S[2:] + [S[0], S[1]])
    yield 'copy', nl(S), b',t$\n$=\nu\nw out\n', b'%d\n' % (2 * N), nl(S)
    yield 'join', nl(S), b',j\nw out\n', b'', b''.join(S) + b'\n'
    yield 'substitute', nl(S), b',s/1/<&>/g\nw out\n', b'', nl([x.replace(b'1', b'<1>') for x in S])
    yield 'substitute-undo', nl(S), b',s/[0-9]/x/g\nu\nw out\n', b'', nl(S)
    yield 'split', nl(S), b',s/\\(.\\)\\(.\\)/\\1\\\n\\2/g\n$=\nu\nw out\n', \
        b'%d\n' % sum(1 + len(x) // 2 for x in S), nl(S)
    yield 'search', nl(S), b'/^%d$/\n?^2$?\n/none/\n$\n' % N, b'%d\n2\n?\n%d\n' % (N, N), None
    yield 'register', nl(S), b',t>1\n1,$d\n<1t0\nw out\n', b'', nl(S)
    yield 'filter', nl(S), b',!cat\nw out\n', b'', nl(S)
    yield 'read-command', nl(T), b'$r !seq 1 %d\n$=\n' % N, b'%d\n' % (N + M), None
    yield 'edit', nl(S), b'E f\nE f\nE f\n$=\n', b'%d\n' % N, None
    yield 'marks', nl(S), b'1ka\n$kb\n%dkc\n\'c=\n\'a,\'bp\n' % (N // 2), b'%d\n' % (N // 2) + nl(S), None
    yield 'append', nl(T), b'$a\n' + nl(S) + b'.\nw out\n', b'', nl(T + S)
    yield 'commands', nl(T), b'p\n' * N, nl([T[-1]]) * N, None
    yield 'errors', nl(T), b'0p\n' * (N // 4), b'?\n' * (N // 4), None
    yield 'undos', nl(T), b'1d\nu\nu\nu\n' * (N // 8) + b'w out\n', b'', nl(T)
    yield 'global-delete', nl(T), b'g/1/d\nw out\n', b'', nl([x for x in T if b'1' not in x])
    yield 'global-substitute', nl(T), b'g/1/s//x/g\nw out\n', b'', nl([x.replace(b'1', b'x') for x in T])
    yield 'global-reverse', nl(T), b'g/^/m0\nw out\n', b'', nl(T[::-1])
    yield 'global-copy', nl(T), b'g/5$/t.\nw out\n', b'', nl([y for x in T for y in
                                                     ([x, x] if x.endswith(b'5') else [x])])
    yield 'global-append', nl(T), b'g/5$/a\\\nnew\nw out\n', b'', nl([y for x in T for y in
                                                     ([x, b'new'] if x.endswith(b'5') else [x])])
    yield 'global-undo', nl(T), b'g/./s/$/x/\\\nt0\nu\nw out\n', b'', nl(T)
    yield 'scroll', nl(T), b'1z\n' + b'z\n' * (M // 23 - 1), nl(T[:23 * (M // 23)]), None
    for nm, l in (('ascii', (b'abcdefghi ' * (L // 10))), ('utf8', 'a\u00e9\u4e2d '.encode() * (L // 8)),
                  ('binary', b'\0\xff\x80a' * (L // 4))):
        yield 'long-print-' + nm, l + b'\n', b'p\nn\n', l + b'\n1\t' + l + b'\n', None
        yield 'long-write-' + nm, l + b'\n', b't.\nw out\n', b'', (l + b'\n') * 2
        yield 'long-join-' + nm, (l + b'\n') * 3, b',j\nw out\n', b'', l * 3 + b'\n'
    l = b'ab' * (L // 20)
    yield 'long-substitute', l + b'\n', b's/a/xyz/g\nw out\n', b'', l.replace(b'a', b'xyz') + b'\n'
    yield 'long-substitute-last', l + b'\n', b's/a/X/%d\nw out\n' % (L // 20), b'', l[:-2] + b'Xb\n'
    yield 'long-substitute-case', l + b'\n', b's/a/\\U&/g\nw out\n', b'', l.replace(b'a', b'A') + b'\n'
    yield 'long-split', l + b'\n', b's/b/&\\\n/g\n$=\n', b'%d\n' % (L // 20 + 1), None
    yield 'long-list', l + b'\n', b'l\n', None, None
    yield 'long-command', b'x\n', b's/x/' + b'y' * (L // 4) + b'/\nw out\n', b'', b'y' * (L // 4) + b'\n'
    yield 'many-addresses', nl(T), b'1' + b'+' * 2000 + b'p\n', b'2001\n', None
    yield 'long-continuation', b'x\n', b's/x/' + b'y\\\n' * (M * 2) + b'z/\n$=\n', b'%d\n' % (M * 2 + 1), None


def limit():
    resource.setrlimit(resource.RLIMIT_CPU, (BUDGET, BUDGET + 5))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def batch(names, big, variant='fast'):
    part = core.Part()
    ctx = core.CTX
    for nm, f, s, out, dest in cases(big):
        if nm not in names:
            continue
        c = run.Case(s, ['-s', 'f'], {'ED_VERIF_TEXT': '0'}, {b'f': f}, 'C')
        for k in range(2):
            # (traced only where the text is not dumped once per command)
            x = run.run(ctx.exe(variant), c, ctx.base, timeout=200, preexec=limit, trace_on=False)
            d = []
            if x.timeout or x.exit < 0:
                d.append('no end within %d s of CPU' % BUDGET if x.exit in (-24, -9) or x.timeout
                         else 'signal %d' % -x.exit)
            else:
                if nm == 'long-list':
                    if re.sub(rb'\\\n', b'', x.stdout) != f[:-1] + b'$\n':
                        d.append('listed text differs')
                elif out is not None and x.stdout != out:
                    i = run.first_diff(x.stdout, out)
                    d.append('output differs at byte %d: %r, expected %r' % (
                        i, x.stdout[i:i + 40], out[i:i + 40]))
                if dest is not None and x.files.get(b'out') != dest:
                    d.append('file differs')
            if not d:
                break
        part.evals += 1
        part.add('scale-case')
        part.seen(nm.encode())
        if d:
            part.bads.append(core.Bad('scale', '%s: %s' % (nm, '; '.join(d)), c, None, variant))
    return part


def jobs(ctx):
    big = ctx.tier != 'quick'
    return [(batch, ([c[0]], big)) for c in cases(False)]
