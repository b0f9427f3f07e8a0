"""Run the editor on a case and compare what it did with what the model
says; every comparison is of observed behaviour (output, state records,
files, exit status)."""
import os, re, resource, shutil, signal, subprocess, tempfile

from . import trace

ASAN = ('detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:'
        'detect_stack_use_after_return=1:strict_string_checks=0:handle_abort=1')
UBSAN = 'print_stacktrace=1:halt_on_error=%d:exitcode=98'
ASAN_RE = re.compile(rb'ERROR: (Address|Memory|Leak)Sanitizer[^\n]*')
SAN_RE = re.compile(rb'ERROR: (Address|Memory|Undefined|Leak)Sanitizer[^\n]*|'
                    rb'[^\n]*runtime error: [^\n]*|'
                    rb'WARNING: MemorySanitizer[^\n]*')


class Case(object):
    """One run: everything needed to repeat it, and what is expected."""

    def __init__(self, script=b'', args=(), env=None, files=None, locale='C'):
        self.script = script
        self.args = list(args)
        self.env = dict(env or {})
        self.files = dict(files or {})       # name -> bytes
        self.locale = locale
        self.argv0 = None
        self.stdin_file = False
        self.tty = None                      # [rows, columns, [[offset, prompts, rows, columns]]]
        self.stderr_tail = None
        self.stdout = None
        self.records = None
        self.texts = None
        self.out_files = None
        self.exit = None
        self.exit_any = None
        self.cov = {}


class Result(object):
    pass


CUR = set()                              # process groups now running


def die(*_):
    """End whatever this worker is running, then the worker."""
    for p in CUR:
        try:
            os.killpg(p, signal.SIGKILL)
        except OSError:
            pass
    os._exit(1)


def scratch_root():
    d = tempfile.mkdtemp(prefix='edv.', dir='/tmp')
    return d


NOBODY = 65534


def confine():
    """Run as a user who owns nothing but its scratch directory and cannot
    start other processes."""
    resource.setrlimit(resource.RLIMIT_FSIZE, (64 << 20, 64 << 20))
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_CPU, (120, 120))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    os.setgroups([])
    os.setresgid(NOBODY, NOBODY, NOBODY)
    os.setresuid(NOBODY, NOBODY, NOBODY)
    resource.setrlimit(resource.RLIMIT_NPROC, (0, 0))


def confine_small():
    """And without room to grow."""
    confine()
    resource.setrlimit(resource.RLIMIT_FSIZE, (4 << 20, 4 << 20))
    resource.setrlimit(resource.RLIMIT_AS, (96 << 20, 96 << 20))


def run(exe, case, base, timeout=30, trace_on=True, stdin=None, ubsan_halt=0,
        preexec=None, keep=False, confined=False, shim=None, setup=None, collect=None, wrap=()):
    """Run exe in a fresh directory under base."""
    r = Result()
    d = tempfile.mkdtemp(prefix='c', dir=base)
    wd = os.path.join(d, 'w')
    td = os.path.join(d, 't')
    os.mkdir(wd)
    os.mkdir(td)
    for n, b in case.files.items():
        if b is None:
            os.mkdir(os.path.join(wd.encode(), n))
            continue
        with open(os.path.join(wd.encode(), n), 'wb') as f:
            f.write(b)
    if setup:
        setup(wd)
    if confined:
        for x in (d, wd, td):
            os.chown(x, NOBODY, NOBODY)
        for n in case.files:
            os.chown(os.path.join(wd.encode(), n), NOBODY, NOBODY)
        preexec = preexec or confine
    env = {'PATH': '/usr/bin:/bin', 'HOME': wd, 'LC_ALL': case.locale,
           'TMPDIR': td, 'SHELL': '/bin/sh', 'TERM': 'dumb',
           'ASAN_OPTIONS': ASAN + (':symbolize=0' if confined else ''),
           'MSAN_OPTIONS': 'exitcode=97:symbolize=0',
           'UBSAN_OPTIONS': UBSAN % ubsan_halt}
    tf = os.path.join(d, 'trace')
    if trace_on:
        env['ED_VERIF_TRACE'] = tf
    if shim is not None:
        env['ED_SHIM_LOG'] = os.path.join(d, 'shim')
        env.update(shim)
    env.update(case.env)
    env = {k: v for k, v in env.items() if v is not None}
    inp = subprocess.PIPE
    if getattr(case, 'stdin_file', False):
        with open(os.path.join(d, 'in'), 'wb') as f:
            f.write(case.script)
        inp = open(os.path.join(d, 'in'), 'rb')
    master = None
    if case.tty:
        from . import term
        master, slave = term.pair(case.tty[0], case.tty[1])
        inp = os.fdopen(slave, 'rb', 0)
    p = subprocess.Popen(list(wrap) + [exe if wrap else case.argv0 or exe] + case.args, cwd=wd, env=env,
                         executable=None if wrap else exe, stdin=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         start_new_session=True, preexec_fn=preexec)
    r.timeout = False
    CUR.add(p.pid)
    try:
        if inp is not subprocess.PIPE:
            inp.close()
        if master is not None:
            r.stdout, r.stderr, ok = term.talk(p, master, case, timeout)
            r.timeout = not ok
        else:
            r.stdout, r.stderr = p.communicate(case.script if inp is subprocess.PIPE else None, timeout=timeout)
    except subprocess.TimeoutExpired:
        r.timeout = True
        os.killpg(p.pid, signal.SIGKILL)
        r.stdout, r.stderr = p.communicate()
    if master is not None:
        os.close(master)
    CUR.discard(p.pid)
    r.exit = p.returncode
    r.records = None
    if trace_on and os.path.exists(tf):
        with open(tf, 'rb') as f:
            b = f.read()
        try:
            r.records = trace.parse(b)
        except Exception as e:
            r.records = None
            r.trace_error = str(e)
    r.shim = []
    if shim is not None and os.path.exists(d + '/shim'):
        with open(d + '/shim') as f:
            r.shim = [l.split() for l in f]
    r.files = {}
    wb = wd.encode()
    for top, dirs, names in os.walk(wb):
        for n in names:
            q = os.path.join(top, n)
            if os.path.isfile(q):
                with open(q, 'rb') as f:
                    r.files[os.path.relpath(q, wb)] = f.read()
    r.left = os.listdir(td)
    if collect:
        r.tree = collect(wd)
    m = ASAN_RE.search(r.stderr) or SAN_RE.search(r.stderr)
    r.san = m.group(0).decode('latin1') if m else None
    r.dir = d
    if not keep:
        shutil.rmtree(d, ignore_errors=True)
    return r


def crashed(r):
    """Differences no model is needed for."""
    d = []
    if r.san:
        d.append(('sanitizer', r.san))
    elif r.exit in (97, 98, 99):
        d.append(('sanitizer', 'exit %d: %r' % (r.exit, r.stderr[-300:])))
    if not r.timeout and r.exit < 0 and r.exit != -9:    # (KILL comes from outside)
        d.append(('signal', 'killed by signal %d' % -r.exit))
    return d


def first_diff(a, b):
    n = min(len(a), len(b))
    for i in range(n):
        if a[i] != b[i]:
            return i
    return n if len(a) != len(b) else -1


def compare(case, r, hook=True):
    """List of differences, each (kind, text)."""
    d = []
    if r.san:
        d.append(('sanitizer', r.san))
    if r.timeout:
        d.append(('timeout', 'no exit in time'))
        return d
    if r.exit is not None and r.exit < 0:
        d.append(('signal', 'killed by signal %d' % -r.exit))
    if hook and case.records is not None:
        recs = r.records or []
        for i, e in enumerate(case.records):
            if i >= len(recs):
                d.append(('trace', 'only %d of %d state records' % (len(recs), len(case.records))))
                break
            g = recs[i]
            if not g.ok:
                d.append(('trace', 'record %d: inconsistent line list' % (i + 1)))
                break
            k = g.key()
            if k != e:
                names = ('dot', 'lines', 'modified', 'status', 'marks', 'text')
                w = [(n, x, y) for n, x, y in zip(names, e, k) if x != y]
                d.append(('trace', 'record %d (command %d): ' % (i + 1, i) +
                          '; '.join('%s expected %s got %s' % (n, short(x), short(y))
                                    for n, x, y in w)
                          + (' after %s (dot was %d of %d)' % (
                              short(b''.join(case.texts[i - 1]), 200),
                              case.records[i - 1][0], case.records[i - 1][1])
                             if i and case.texts else '')))
                break
        else:
            if len(recs) > len(case.records):
                d.append(('trace', '%d state records, expected %d' % (len(recs), len(case.records))))
    if case.stdout is not None and r.stdout != case.stdout:
        i = first_diff(r.stdout, case.stdout)
        d.append(('stdout', 'at byte %d: expected %r got %r' % (
            i, case.stdout[max(0, i - 20):i + 60], r.stdout[max(0, i - 20):i + 60])))
    if case.out_files is not None:
        for n in sorted(set(case.out_files) | set(r.files)):
            e, g = case.out_files.get(n), r.files.get(n)
            if e != g:
                d.append(('file', '%r: expected %s got %s' % (n, short(e), short(g))))
                break
    if case.exit is not None and r.exit != case.exit and r.exit >= 0:
        d.append(('exit', 'status %r, expected %r' % (r.exit, case.exit)))
    t = getattr(case, 'stderr_tail', None)
    if t is not None and not r.stderr.endswith(t):
        d.append(('stderr', 'expected ...%s got ...%s' % (short(t), short(r.stderr[-200:]))))
    if r.left and not r.exit < 0 and not r.san:
        d.append(('scratch', 'scratch files left: %r' % r.left))
    return d


def short(x, n=160):
    s = repr(x)
    return s if len(s) <= n else s[:n] + '...(%d)' % len(s)
