"""Restricted editor: sessions that try every way out (names, lists and
patterns, shell commands, options, environment, macros, globals), watched from
outside: system calls, programs started, files beside the working directory."""
import os, random, re, shutil, stat, subprocess, tempfile

from . import core, gen, inject, profiles, run, scratch
from .run import Case
from .scratch import CALL, low

MARK = b'm4rk-%d-outside'
RAN = b'echo ran >>../o/ran'
TOK = [b'..', b'/', b'.', b'~', b'*', b'?', b'[/]', b'[.]', b'[!a]', b'f1', b'f2', b'o', b'sec', b'sub', b'in', b'ff',
       b'lff', b'ld', b'!', b'%', b'\\', b'root', b'nobody', b' ', b'\t', b'\\\n', b'-', b'+', b'$HOME', b'#', b'<',
       b'>', b'|', b';', b'`id`', b'{a,/}', b'$', b'\\/', b'\\ ', b'"', b"'", b'\0', b'\xff', b'sc', b'new', b'@', b'%%']
NAMES = [b'../o/sec', b'/ABS/sec', b'..', b'../o', b'/ABS', b'./f1', b'sub/in', b'sub', b'ld', b'ld/in', b'ff', b'lff',
         b'.', b'*', b'?*', b'.*', b'~', b'~/sec', b'~nobody', b'~root', b'~/', b'~+', b'*/*', b'*/../o/*', b's*', b'f?',
         b'l*', b'/dev/null', b'/dev/stdin', b'/dev/tty', b'/etc/passwd', b'!' + RAN, b'! ' + RAN, b'|' + RAN, b'%/../o/sec',
         b'% %', b'f1\\\n../o/sec', b'f1 ../o/sec', b'f1 .. f2', b'../o/s*', b'[.][.]/o/sec', b'..\\/o/sec', b'\\../o/sec',
         b'..//o/sec', b'f1\t/ABS/sec', b'f1 ~', b'f1 ~/sec', b'~ f1', b'\\~', b'*sec*', b'', b' ', b'//', b'/', b'-']
CMDS = [b'e', b'E', b'r', b'w', b'W', b'wq', b'f', b'~e', b'~E', b'~r', b'~w', b'~W', b'~f', b'~wq', b'0r', b'$r', b',w', b'1w',
        b'1,2W', b'.W', b'~er', b'en', b'ep', b'rn', b'~en', b'~ep', b'~fn', b'~fp', b'~wn', b'~wp', b'~rn', b'~n', b'~p',
        b'wn', b'wp', b'fn', b'e!', b'r!', b'w!', b'f!', b'E!', b'~e!', b'~r!', b'~w!', b'~f!']
SHELL = [b'!' + RAN, b'! ' + RAN, b',!' + RAN, b'1!' + RAN, b'.,$!' + RAN, b'!!', b'!!;' + RAN, b'r !' + RAN, b'0r!' + RAN,
         b'w !' + RAN, b'w!' + RAN, b'W !' + RAN, b'e !' + RAN, b'E!' + RAN, b'f !' + RAN, b'~e !' + RAN, b'~r !' + RAN,
         b'~f !' + RAN, b'!', b'r !', b'w !', b'1,$!!', b'r !!', b'!%', b's/.*/' + RAN.replace(b'/', b'\\/') + b'/e',
         b'|' + RAN, b'<!' + RAN, b'>!' + RAN, b'!' + RAN + b'\\', b'r', b'w', b'W', b'e', b'f']
EDENV = [None] * 60 + ['-s', '-fABS/script', '-f ABS/script', '-e a -f ABS/sec -e . -e ,p', '-f ../o/sec', '-iABS/x -e w',
                      'ABS/sec', '../o/sec', '-f sc', '-e !RAN', '-s f2', '!RAN', '-f sub/in', '-f ff', '-f ld', '-E']
EXTRA = [[]] * 25 + [['f1']] * 30 + [['f1', 'f2']] * 9 + [ ['f1', 'f2'], ['ABS/sec'], ['../o/sec', 'f1'], ['f1', '../o/sec'], ['sub/in'], ['!RAN'],
         ['*'], ['~'], ['..'], ['.'], ['ff'], ['lff'], ['ld'], ['sub'], ['-f', 'ABS/script'], ['-f', 'sc', 'f1'],
         ['-f', '../o/sec'], ['-e', 'a', '-f', 'ABS/sec', '-e', '.', '-e', ',p'], ['-f', '-', 'f1'], ['-f', 'ff'],
         ['-f', 'ABS/sec', '-v', 'f1'], ['-fsub/in'], ['--file=ABS/sec'], ['--script=ABS/sec'], ['-f', '/dev/stdin', 'f1'],
         ['-iABS/', '-e', '1d', 'f1'], ['-i/../../o/x', '-e', '1d', 'f1'], ['-i.bak', '-e', '1d', 'f1', 'f2'],
         ['-i../o/*', '-e', '1d', 'f1'], ['-i', '-e', '!RAN', 'f1'], ['-e', 'r ../o/sec', 'f1'], ['-e', '!RAN', 'f1'],
         ['+2', '../o/sec'], ['+/a', 'ABS/sec'], ['-p', '*', 'f1'], ['-w', 'ABS/new'], ['-w', '../o/new'], ['-'],
         ['-', 'ABS/sec'], ['-f', 'ld', 'f1'], ['-f', 'lff', 'f1'], ['-f', '..', 'f1'], ['-G', 'f1'], ['-f', '', 'f1'],
         ['f1', '-f', '../o/sec'], ['-s', '--', '../o/sec'], ['-f', 'sc', '-f', '../o/script', 'f1']]


def name(r):
    if r.random() < .6:
        return r.choice(NAMES)
    return b''.join(r.choice(TOK) for _ in range(r.randint(1, 5)))


def attempt(r):
    x = r.random()
    if x < .55:
        c = r.choice(CMDS) + (b' ' if r.random() < .85 else b'') + name(r)
    elif x < .8:
        c = r.choice(SHELL)
    elif x < .9:
        c = r.choice([b'~f *', b'~f f*', b'~e f1 f2', b'~e *', b'~f f1 ~', b'f ~', b'~f l* s*', b'f %', b'~f .*']) + b'\n' + \
            r.choice([b'~n', b'~en', b'~wn', b'e', b'w', b'r', b'~e', b'~p', b'~ep', b'~q', b'n'])
    else:
        c = r.choice([b'f ', b'e ', b'E ', b'~e ']) + name(r) + b'\n' + r.choice([b'w', b'r', b'e', b'E', b'W', b'!%', b'r !cat %'])
    c = c.replace(b'\0', b'')
    y = r.random()
    if y < .1 and b'\n' not in c:
        return b'g/./' + c + b'\n'
    if y < .16:
        return b'1g/./p\\\n' + c.replace(b'\n', b'\\\n') + b'\n'
    if y < .3:                           # through a register
        n = c.count(b'\n') + 1
        t = b'a'
        return b'$a\n' + c + b'\n.\n$-%d,$m>%s\n@%s\n' % (n - 1, t, t)
    if y < .36 and b'\n' not in c:
        return b'!!\n' + c + b'\n!!\n'
    return c + b'\n'


def make(seed):
    r = random.Random('confine/%d' % seed)
    c = inject.session(r.randrange(1 << 40), profiles.P['P15']['profiles'][0][0], (0, 5))
    s = b'H\n' if r.random() < .7 else b''
    for t in c.texts[:-1]:
        s += b''.join(t)
        for _ in range(r.choice((0, 1, 1, 2, 3))):
            s += attempt(r)
    s += b''.join(attempt(r) for _ in range(r.randint(2, 8)))
    s += r.choice([b'Q\n', b'q\nq\n', b'wq\n', b'', b'w\nq\n', b'~n\n~n\nQ\n'])
    args = (['-s'] if r.random() < .5 else []) + (['-v'] if r.random() < .2 else []) + r.choice(EXTRA)
    return s, args, r


KINDS = {'ff': 'FIFO', 'lff': 'link to FIFO', 'ld': 'link to directory', 'sub': 'directory', 'nl': 'device'}


def go(exe, seed, base, traced):
    s, args, r = make(seed)
    d = tempfile.mkdtemp(prefix='c', dir=base)
    wd, od, td = d + '/w', d + '/o', d + '/t'
    mark = MARK % seed
    for x in (wd, od, td, wd + '/sub', d + '/bin'):
        os.mkdir(x)
    put = {wd + '/f1': b'file one\nline two\nab\n', wd + '/f2': b'zz\n', wd + '/sub/in': mark + b'\n', wd + '/sc': b'1,$p\nr f2\n',
           od + '/sec': mark + b'\n', od + '/script': b'1,$p\nr f2\nw ' + mark + b'\n'}
    for n, b in put.items():
        with open(n, 'wb') as f:
            f.write(b)
    os.mkfifo(wd + '/ff')
    os.symlink('ff', wd + '/lff')
    os.symlink('sub', wd + '/ld')
    for top, dirs, names in os.walk(d):
        for n in [top] + [os.path.join(top, x) for x in names + dirs]:
            os.lchown(n, run.NOBODY, run.NOBODY)
    os.chmod(d, 0o755)
    os.symlink(exe, d + '/bin/red')
    q = lambda a: a.replace('ABS', od).replace('RAN', RAN.decode())
    args = [q(a) for a in args]
    s = s.replace(b'/ABS', od.encode())
    home = r.choice([wd, od, od + '/sec', None, '/root', wd + '/sub', od + '/sec'])
    env = {'PATH': '/usr/bin:/bin', 'LC_ALL': r.choice(['C', 'C.UTF-8']), 'TMPDIR': td, 'SHELL': '/bin/sh', 'TERM': 'dumb',
           'ASAN_OPTIONS': run.ASAN, 'UBSAN_OPTIONS': run.UBSAN % 0}
    if home:
        env['HOME'] = home
    ed = r.choice(EDENV)
    if ed:
        env['ED'] = q(ed)
    z = scratch.Res()
    z.case = Case(s, args, dict(env), put)
    z.case.argv0 = 'red'
    before = tree(od), tree(wd + '/sub')
    cmd = [d + '/bin/red'] + args
    if traced:
        cmd = ['strace', '-f', '-qq', '-s', '4096', '-e', 'signal=none', '-e',
               'trace=execve,execveat,clone,clone3,vfork,fork,%file,ftruncate,fchmod,fchown,connect', '-o', d + '/strace'] + cmd
    p = subprocess.Popen(cmd, cwd=wd, env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         start_new_session=True, preexec_fn=lambda: low(0o22))
    run.CUR.add(p.pid)
    z.timeout = False
    try:
        z.out, z.err = p.communicate(s, timeout=core.CASE_TIMEOUT)
    except subprocess.TimeoutExpired:
        z.timeout = True
        os.killpg(p.pid, 9)
        z.out, z.err = p.communicate()
    run.CUR.discard(p.pid)
    z.exit = p.returncode
    z.bad = []
    z.calls = 0
    if z.timeout:
        z.bad.append(('timeout', 'no exit'))
    if (tree(od), tree(wd + '/sub')) != before:
        z.bad.append(('outside', 'files outside the working directory change: %r, %r' % (tree(od), tree(wd + '/sub'))))
    if mark in z.out or mark in z.err:
        z.bad.append(('read', 'text of a file outside is shown'))
    for n in os.listdir(wd):
        f = wd + '/' + n
        m = os.lstat(f).st_mode
        if n in ('ff', 'lff', 'ld', 'sub'):
            if stat.S_ISREG(m):
                z.bad.append(('outside', '%s is now a regular file' % n))
        elif stat.S_ISREG(m):
            with open(f, 'rb') as g:
                if mark in g.read():
                    z.bad.append(('read', 'text of a file outside in %r' % n))
    if [x for x in os.listdir(d) if x not in ('w', 'o', 't', 'bin', 'strace')]:
        z.bad.append(('outside', 'new files %r' % os.listdir(d)))
    if os.path.exists(d + '/strace'):
        with open(d + '/strace', 'rb') as f:
            watch(z, f.read().decode('latin1'), wd, td, args, env)
    z.d = d
    shutil.rmtree(d, ignore_errors=True)
    return z


def tree(p):
    o = []
    for top, dirs, names in os.walk(p):
        for n in sorted(names + dirs):
            f = os.path.join(top, n)
            st = os.lstat(f)
            o.append((os.path.relpath(f, p), stat.S_IFMT(st.st_mode), st.st_mode, st.st_ino,
                      open(f, 'rb').read() if stat.S_ISREG(st.st_mode) else None))
    return sorted(o, key=lambda x: x[0])


def file_lists(r):
    """Lines of a session that makes and walks file lists."""
    n = lambda: r.choice(GLOBS)
    o = []
    for _ in range(r.randint(3, 14)):
        x = r.random()
        if x < .3:
            o.append(r.choice([b'~e ', b'~E ', b'~f ', b'~f ']) + b' '.join(n() for _ in range(r.choice((1, 1, 2, 3)))))
        elif x < .4:
            o.append(r.choice([b'~r ', b'~w ', b'~W ', b'~wq ']) + n())
        elif x < .75:
            o.append(r.choice([b'~en', b'~ep', b'~En', b'~Ep', b'~fn', b'~fp', b'~wn', b'~wp', b'~e', b'~E', b'~f', b'~r', b'~w']))
        elif x < .85:
            o.append(r.choice([b'e', b'E', b'f', b'r', b'w', b'e ', b'E ', b'f ', b'r ', b'w ']) + n())
        elif x < .95:
            o.append(r.choice([b'q', b'u', b'1d', b'a\nx\n.', b'g/./p', b'g/./~en', b'1g/x/~e f1\\\n~en', b'H', b'!!', b'E f1', b'$']))
        else:
            o.append(attempt(r).rstrip(b'\n'))
    return o


GLOBS = [b'f1', b'f2', b'f*', b'*', b'f?', b'no*', b'no', b'[f]1', b'f[12]', b'sub', b's*', b'sub/*', b'sub/x', b's*/x', b'ld/*',
         b'\\*', b'[', b'[]', b'f\\ 1', b'~', b'~/f1', b'~/f*', b'~/x', b'*/in', b'*/*', b'no/*', b'no/x', b'f1/x', b'f1/*',
         b'!echo\\ x', b'\\\n!echo\\ x', b'!true', b'\\!f1', b'f1 f2', b'f1 no f2', b'f2 f*', b'.', b'..', b'./f*', b'',
         b'* f1', b'*/x f1', b'f1 */x', b'*/no */x', b'\t', b'sub ld', b'x' * 300, b'[' * 30, b'*' * 30, b'~nobody/x', b'~zz/x']


def watch(z, log, wd, td, args, env):
    first, own = True, set()
    stdin_ok = '-' in args or '-f-' in args or '-f -' in env.get('ED', '')
    for l in log.split('\n'):
        m = CALL.match(l)
        if not m:
            if re.search(r'^\d+ +(execve|clone|vfork|fork)', l) and not first:
                z.bad.append(('program', l[:200]))
            continue
        call, a, res = m.group(2), m.group(3), int(m.group(4))
        z.calls += 1
        if call in ('execve', 'execveat', 'clone', 'clone3', 'vfork', 'fork'):
            if call == 'execve' and first:
                first = False
                continue
            z.bad.append(('program', l[:200]))
            continue
        first = False
        ps = [x.encode('latin1').decode('unicode_escape') for x in re.findall(r'"((?:[^"\\]|\\.)*)"', a)]
        if call == 'connect' and res >= 0:
            z.bad.append(('program', l[:200]))
        if res < 0 or not ps or call in ('access', 'faccessat', 'faccessat2', 'stat', 'lstat', 'newfstatat', 'statx',
                                         'readlink', 'readlinkat', 'getcwd', 'statfs', 'chdir'):
            continue
        p = os.path.normpath(os.path.join(wd, ps[0]))
        dn, bn = os.path.split(p)
        if dn == td:
            own.add(p)
            continue
        if call in ('open', 'openat', 'openat2', 'creat'):
            if 'O_CLOEXEC' in a and not re.search('O_WRONLY|O_RDWR|O_CREAT', a) and re.match('/(usr|lib|lib64|etc)/', p):
                continue                 # (of the C library)
            if p in ('/proc/self/loginuid', '/var/run/utmp', '/run/utmp'):
                continue                 # (of getlogin in glob)
            if p == '/dev/stdin' and stdin_ok:
                continue
            if p == wd and 'O_DIRECTORY' in a:
                continue                 # (expansion of a pattern)
            if dn == wd and bn not in KINDS:
                continue
            z.bad.append(('open', '%s is opened: %s' % (KINDS.get(bn, 'file outside') if dn == wd else 'file outside', l[:300])))
        else:
            z.bad.append(('change', l[:300]))


def batch(seeds, traced):
    part = core.Part()
    ctx = core.CTX
    if traced and not scratch.can_trace():
        part.add('strace-unavailable')
        traced = False
    for s in seeds:
        for n in range(3):
            z = go(ctx.exe('fast'), s, ctx.base, traced)
            if not z.bad:
                break
        part.evals += 1
        part.add('system-calls-watched', z.calls)
        part.add('attempts', z.case.script.count(b'\n'))
        for k in (b'Access restricted to working', b'Access restricted to regular', b'Shell access'):
            part.add('refused: ' + k.decode(), z.out.count(k))
        part.add('refused', z.out.count(b'?\n'))
        part.add('exit:%d' % z.exit)
        part.seen(z.case.script + repr((z.case.args, sorted(z.case.env.items()))).encode())
        if z.bad:
            part.bads.append(core.Bad(z.bad[0][0], '; '.join('%s: %s' % x for x in z.bad[:4]) + ' [%r, ED %r]' % (
                z.case.args, z.case.env.get('ED')), z.case, s, 'fast'))
            break
    return part


def jobs(ctx, n, chunk=30):
    s0 = ctx.seed * 1000003 + 700000000
    return [(batch, (range(s0 + k, s0 + min(n, k + chunk)), True)) for k in range(0, n, chunk)]
