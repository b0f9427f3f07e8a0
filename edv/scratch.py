"""Scratch files: where, with which rights, under what names, and whether any
are left - seen from inside the session (a probe run by `!' lists TMPDIR and the
editor's open files) and outside (system calls of the editor's process)."""
import os, random, re, shutil, stat, subprocess, tempfile

from . import core, gen, inject, profiles, run
from .run import Case

W = dict(inject.W, w=3, e=1.5, reg_w=3, mac_def=1, mac_run=2, filter=1, rsh=.5, wsh=.5, r=2, bad=1)
# Registers filled, copied and moved.
WR = dict(a=2, d=1, u=.5, w=.5, e=.3, reg_w=5, reg_rr=5, reg_r=2, mac_run=.5, m=1, g=.5, bad=.3)
PROBE = (b'{ echo "== $PPID"; (cd "$SCRATCH" && for f in * .[!.]*; do '
         b'test -e "$f" -o -h "$f" && stat -c "%a %u %h %F|%n" "$f"; done); '
         b'ls -l /proc/$PPID/fd; } >>"$PROBE" 2>/dev/null\n')
ENDS = [b'Q\n', b'q\nq\n', b'wq OUT\n', b'w OUT\nq\n', b'', b'x\n', b'zz\nQ\n', b'a\nopen', b'g/x/s/x/y/\\',
        b'E f1\nq\n', b'e f2\nq\n', b'!exit 3\nQ\n', b'q', b'H\nq\nq\n']
OPTS = [['-s'], ['-s', 'f1'], [], ['-v', 'f2'], ['-s', '-E', 'f1'], ['-s', '-G'], ['nofile'], ['-s', 'nodir/x'],
        ['--bad-option'], ['--version'], ['--help'], ['-f', 'nofile'], ['-e', 'p'], ['-f', 'f1', 'f2'],
        ['-e', '1p', '-s', 'f1'], ['-s', '+3', 'f1'], ['-s', '+/line', 'f1'], ['-i', 'f1'], ['-s', '-'], ['f1', 'f2']]
TMPS = ['t', 't', 't', 't/', 'sub', 'none', 'f1', 'ro', '', 'unset']


def make(seed):
    r = random.Random('scratch/%d' % seed)
    c = inject.session(r.randrange(1 << 40), *((WR, (4, 16)) if r.random() < .3 else (W, (2, 10))))
    pieces = [b''.join(t) for t in c.texts[:-1]]
    pr = b'!. ./probe\n'
    s = pr
    for t in pieces:
        s += t
        if r.random() < .35:
            s += pr
    s += r.choice(ENDS)
    args = r.choice(OPTS) if r.random() < .6 else c.args
    fl = dict(c.files, probe=None)
    fl.pop('probe')
    fl[b'probe'] = PROBE
    fl[b'sub'] = None
    return Case(s, args, {}, fl), r


def low(um):
    """Without rights to anything but the session's files."""
    os.setgroups([])
    os.setresgid(run.NOBODY, run.NOBODY, run.NOBODY)
    os.setresuid(run.NOBODY, run.NOBODY, run.NOBODY)
    os.umask(um)


class Res(object):
    pass


def go(exe, case, r, base, traced):
    """Run; return what was seen."""
    d = tempfile.mkdtemp(prefix='c', dir=base)
    wd, td = d + '/w', d + '/t'
    os.mkdir(wd)
    os.mkdir(td)
    for n, b in case.files.items():
        q = os.path.join(wd.encode(), n)
        if b is None:
            os.mkdir(q)
        else:
            with open(q, 'wb') as f:
                f.write(b)
    os.mkdir(wd + '/ro', 0o555)
    for top, dirs, names in os.walk(d):
        for n in [top] + [os.path.join(top, x) for x in names]:
            if not n.endswith('/ro'):
                os.chown(n, run.NOBODY, run.NOBODY)
    os.chmod(d, 0o755)
    tmp = r.choice(TMPS)
    sd = {'t': td, 't/': td, 'sub': wd + '/sub', '': '/tmp', 'unset': '/tmp'}.get(tmp)
    env = {'PATH': '/usr/bin:/bin', 'HOME': wd, 'LC_ALL': 'C', 'SHELL': '/bin/sh', 'TERM': 'dumb',
           'ASAN_OPTIONS': run.ASAN, 'UBSAN_OPTIONS': run.UBSAN % 0, 'PROBE': d + '/probe',
           'SCRATCH': sd if sd and sd != '/tmp' else '/nonexistent',
           'TMPDIR': {'t': td, 't/': td + '/', 'none': wd + '/none', 'f1': wd + '/f1'}.get(tmp, tmp)}
    if tmp == 'unset':
        del env['TMPDIR']
    um = r.choice((0, 0, 0o22, 0o77, 0o2))
    cmd = [exe] + case.args
    if traced:
        cmd = ['strace', '-f', '-qq', '-s', '4096', '-e', 'signal=none', '-e',
               'trace=execve,clone,vfork,fork,%file,ftruncate,fchmod,fchown', '-o', d + '/strace'] + cmd
    regular = r.random() < .3
    with open(d + '/in', 'wb') as f:
        f.write(case.script)
    z = Res()
    z.timeout = False
    z.tmp, z.sd, z.wd, z.umask, z.cmd = tmp, sd, wd, um, cmd
    stdin = open(d + '/in', 'rb') if regular else subprocess.PIPE
    p = subprocess.Popen(cmd, cwd=wd, env=env, stdin=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         start_new_session=True, preexec_fn=lambda: low(um))
    run.CUR.add(p.pid)
    try:
        z.out, z.err = p.communicate(None if regular else case.script, timeout=core.CASE_TIMEOUT)
    except subprocess.TimeoutExpired:
        z.timeout = True
        os.killpg(p.pid, 9)
        z.out, z.err = p.communicate()
    run.CUR.discard(p.pid)
    z.exit = p.returncode
    z.probe = open(d + '/probe', 'rb').read().decode('latin1') if os.path.exists(d + '/probe') else ''
    z.strace = open(d + '/strace', 'rb').read().decode('latin1') if os.path.exists(d + '/strace') else ''
    z.left = []
    for dd in (td, wd + '/sub'):
        z.left += [dd + '/' + x for x in os.listdir(dd)]
    z.files = set()
    for top, dirs, names in os.walk(wd):
        z.files |= {os.path.relpath(os.path.join(top, n), wd) for n in names + dirs}
    z.rest = sorted(os.listdir(d))
    shutil.rmtree(d, ignore_errors=True)
    return z


def named(case, name):
    """Does the user name this file?"""
    b = os.path.basename(name).encode('latin1')
    return (b in case.script or any(os.fsencode(a).endswith(b) for a in case.args)
            or b in (x for x in case.files) or b == b'ed.hup'
            or b == b'ro' or any(v and b in v for v in case.files.values()))


FD = re.compile(r'^l\S+ .* (\d+) -> (.*)$')
CALL = re.compile(r'^(\d+) +(\w+)\((.*?)\) += (-?\d+)', re.S)


def judge(z, case, names):
    d = []
    if z.timeout:
        return [('timeout', 'no exit')]
    if z.exit < 0:
        return []
    if z.left:
        d.append(('scratch', 'left behind (exit %d): %r' % (z.exit, z.left)))
    for f in sorted(z.files):
        if not named(case, f):
            d.append(('stray', 'file %r appears in working directory' % f))
    if [x for x in z.rest if x not in ('w', 't', 'in', 'probe', 'strace')]:
        d.append(('stray', 'files %r' % z.rest))
    z.probes = z.scratch = 0
    for l in z.probe.split('\n'):
        if l.startswith('== '):
            z.probes += 1
            continue
        m = FD.match(l)
        if m:
            n, p = int(m.group(1)), m.group(2)
            if p.endswith(' (deleted)'):
                p = p[:-10]
            if not p.startswith('/') or p.startswith('/dev/') or n < 3 or p.startswith('/proc/'):
                continue
            dn, bn = os.path.split(p)
            if z.sd and dn == os.path.normpath(z.sd) and (z.sd != z.wd):
                z.scratch += 1
                names.add(bn)
                if os.path.lexists(p):
                    d.append(('scratch', '%s left behind (exit %d)' % (p, z.exit)))
                continue
            if dn == z.wd and named(case, bn):
                continue
            if p.endswith('/in') or p.endswith('/probe') or p.endswith('/strace'):
                continue
            d.append(('place', 'file %r is open, TMPDIR is %r (%s)' % (p, z.sd, z.tmp)))
            continue
        if '|' in l and not l.startswith('l'):
            a, n = l.split('|', 1)
            mode, uid, links, typ = a.split(' ', 3)
            names.add(n)
            if mode != '600' or int(uid) != run.NOBODY or links != '1' or not typ.startswith('regular'):
                d.append(('rights', 'scratch file %s: mode %s, owner %s, links %s, %s (umask %o)' % (
                    n, mode, uid, links, typ, z.umask)))
    return d + (syscalls(z, case, names) if z.strace else [])


def syscalls(z, case, names):
    d = []
    own, mine, seen = set(), None, False
    z.calls = 0
    for l in z.strace.split('\n'):
        m = CALL.match(l)
        if not m:
            continue
        pid, call, a, res = m.group(1), m.group(2), m.group(3), int(m.group(4))
        if mine is None:
            mine = pid
        if pid != mine:
            continue
        z.calls += 1
        if res < 0 or call in ('execve', 'clone', 'vfork', 'fork', 'access', 'faccessat', 'faccessat2', 'stat',
                               'lstat', 'newfstatat', 'statx', 'readlink', 'readlinkat', 'getcwd', 'statfs',
                               'chdir', 'clone3'):
            continue
        ps = [x.encode('latin1').decode('unicode_escape') for x in re.findall(r'"((?:[^"\\]|\\.)*)"', a)]
        if call in ('open', 'openat', 'creat', 'openat2'):
            if call != 'creat' and not re.search(r'O_WRONLY|O_RDWR|O_CREAT|O_TRUNC|O_APPEND', a):
                continue
            p = os.path.normpath(os.path.join(z.wd, ps[0])) if ps else '?'
            if p in own or p.startswith('/dev/') or p.startswith('/proc/self'):
                continue
            dn, bn = os.path.split(p)
            if z.sd and dn == os.path.normpath(z.sd):
                own.add(p)
                names.add(bn)
                if 'O_CREAT' not in a or 'O_EXCL' not in a:
                    d.append(('exclusive', 'scratch file is not created exclusively: %s(%s)' % (call, a)))
                mm = re.search(r', 0(\d*)$', a)
                if mm and int(mm.group(1) or '0', 8) & 0o077:
                    d.append(('rights', 'scratch file is created for others: %s(%s)' % (call, a)))
                continue
            if dn == z.wd and named(case, bn):
                continue
            d.append(('place', '%s(%s), TMPDIR %s' % (call, a, z.tmp)))
        elif call in ('unlink', 'unlinkat', 'rmdir'):
            p = os.path.normpath(os.path.join(z.wd, ps[0])) if ps else '?'
            if p not in own:
                d.append(('remove', '%s(%s)' % (call, a)))
            own.discard(p) if not os.path.lexists(p) else None
        elif call in ('ftruncate', 'umask'):
            continue
        elif call in ('utime', 'utimes', 'utimensat', 'inotify_add_watch', 'name_to_handle_at', 'getxattr',
                      'lgetxattr'):
            continue
        else:
            d.append(('change', '%s(%s)' % (call, a)))
    for p in own:
        d.append(('scratch', '%s is not removed (exit %d)' % (p, z.exit)))
    return d


def guessable(names):
    """A batch of scratch names must not follow a pattern."""
    by = {}
    for n in names:
        by.setdefault(len(n), set()).add(n)
    for k, s in by.items():
        if len(s) < 40:
            continue
        cols = [len(set(c)) for c in zip(*s)]
        if sum(x >= 12 for x in cols) < 5:
            return 'names vary in %r ways by position: %s' % (cols, sorted(s)[:5])
    return None


def can_trace():
    try:
        return subprocess.run(['strace', '-o', '/dev/null', 'true'], stdout=subprocess.DEVNULL,
                              stderr=subprocess.DEVNULL, timeout=20).returncode == 0
    except (OSError, subprocess.TimeoutExpired):
        return False


def batch(seeds, traced, variant='asan'):
    part = core.Part()
    ctx = core.CTX
    exe = ctx.exe(variant)
    if traced and not can_trace():
        part.add('strace-unavailable')
        traced = False
    names, created = set(), 0
    for s in seeds:
        for n in range(3):
            case, r = make(s)
            z = go(exe, case, r, ctx.base, traced)
            d = judge(z, case, names)
            if not d:
                break
        part.evals += 1
        created += len(names)
        part.add('tmpdir:' + z.tmp)
        part.add('probes', getattr(z, 'probes', 0))
        part.add('open-scratch-files-seen', getattr(z, 'scratch', 0))
        part.add('system-calls-of-editor', getattr(z, 'calls', 0))
        part.add('exit:%d' % z.exit)
        part.seen(case.script + repr((z.tmp, case.args)).encode())
        if d:
            part.bads.append(core.Bad(d[0][0], '; '.join('%s: %s' % x for x in d[:4]) + ' [TMPDIR %s, umask %o]' % (
                z.tmp, z.umask), case, s, variant))
            return part
    part.add('scratch-names', len(names))
    g = guessable(names)
    if g:
        part.bads.append(core.Bad('guess', g, case, s, variant))
    return part


def jobs(ctx, n, chunk=40):
    s0 = ctx.seed * 1000003 + 600000000
    return [(batch, (range(s0 + k, s0 + min(n, k + chunk)), k // chunk % 3 == 2, 'fast' if k // chunk % 3 == 2
                     else 'asan')) for k in range(0, n, chunk)]
