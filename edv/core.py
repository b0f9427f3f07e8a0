"""Driver shared by all checks: parallel execution, verdicts, evidence."""
import base64, hashlib, json, os, shutil, signal, sys, tempfile, threading, time, traceback
import multiprocessing as mp

from . import build, run

VERIF = build.VERIF
EVID = os.path.join(VERIF, 'evidence')
REPLAY = os.path.join(EVID, 'replay')
NPROC = int(os.environ.get('EDV_JOBS', str(os.cpu_count() or 8)))
CASE_TIMEOUT = 20                        # (a case takes well under a second)
DEADLINE = {'quick': 720, 'thorough': 6 * 3600}
GRACE = 20                               # seconds to go on once something failed


class Bad(object):
    """One disagreement between an execution and its oracle."""

    def __init__(self, kind, text, case=None, seed=None, exe='asan', extra=None):
        self.kind, self.text, self.case = kind, text, case
        self.seed, self.exe, self.extra = seed, exe, extra


class Part(object):
    """Result of one batch of cases (picklable)."""

    def __init__(self):
        self.evals = 0
        self.hashes = set()
        self.cov = {}
        self.bads = []
        self.inconclusive = 0
        self.samples = []
        self.dropped = 0

    def add(self, k, n=1):
        self.cov[k] = self.cov.get(k, 0) + n

    def merge(self, o):
        self.evals += o.evals
        self.hashes |= o.hashes
        for k, v in o.cov.items():
            self.add(k, v)
        self.bads += o.bads
        self.inconclusive += o.inconclusive
        self.dropped += o.dropped
        for s in o.samples:
            if len(self.samples) < 4:
                self.samples.append(s)

    def seen(self, data):
        self.hashes.add(hashlib.md5(data).digest()[:8])


class Ctx(object):
    """Everything a batch needs to know."""

    def __init__(self, pid, tier, seed, exes, base):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.exes, self.hook, self.base = exes, exes.get('hook'), base

    def exe(self, v='asan'):
        return self.exes[v]


CTX = None


def is_ubsan(text):
    return 'runtime error:' in text


def keep(pid, diffs):
    """Differences this property is about."""
    if pid == 'P01':
        return [d for d in diffs if d[0] in ('sanitizer', 'signal')]
    return [d for d in diffs if not (d[0] == 'sanitizer' and is_ubsan(d[1]))]


def sample_of(case, r=None):
    s = {'args': list(case.args),
         'script': case.script[:400].decode('latin1')}
    if r is not None:
        s['stdout'] = (r.stdout or b'')[:200].decode('latin1')
    return s


def run_case(part, case, seed=None, variant='asan', **kw):
    """Run, compare and record one model-predicted case."""
    ctx = CTX
    exe = ctx.exe(variant)
    r = run.run(exe, case, ctx.base, timeout=CASE_TIMEOUT, **kw)
    d = keep(ctx.pid, run.compare(case, r, ctx.hook))
    part.evals += 1
    if d:
        # Confirm: a disagreement counts when it comes up again.
        for k in range(1 if r.timeout else 4):
            r2 = run.run(exe, case, ctx.base, timeout=2 * CASE_TIMEOUT, **kw)
            d2 = keep(ctx.pid, run.compare(case, r2, ctx.hook))
            if d2:
                part.bads.append(Bad(d2[0][0], '; '.join('%s: %s' % x for x in d2),
                                     case, seed, variant))
                break
        else:
            part.inconclusive += 1
    return r


def _init():
    signal.signal(signal.SIGTERM, run.die)
    signal.signal(signal.SIGINT, signal.SIG_IGN)


def _call(job):
    fn, args = job
    try:
        return fn(*args)
    except Exception:
        return traceback.format_exc()


def end_pool(pool):
    """Terminate it; a worker about to wait for a lock may miss its signal."""
    pids = [p.pid for p in pool._pool]
    done = threading.Event()

    def again():
        n = 0
        while not done.wait(1):
            n += 1
            for q in set(pids + [p.pid for p in list(pool._pool)]):
                try:
                    with open('/proc/%d/stat' % q) as f:
                        if int(f.read().rsplit(')', 1)[1].split()[1]) == os.getpid():
                            os.kill(q, signal.SIGTERM if n < 10 else signal.SIGKILL)
                except (OSError, ValueError, IndexError):
                    pass
    t = threading.Thread(target=again, daemon=True)
    t.start()
    pool.terminate()
    pool.join()
    done.set()
    t.join()


def parallel(ctx, jobs):
    """jobs: list of (function returning Part, args)."""
    global CTX
    CTX = ctx
    total = Part()
    errors = []
    end = time.time() + DEADLINE.get(ctx.tier, 720)
    cut = fresh = False
    kn = known()
    pool = mp.get_context('fork').Pool(NPROC, initializer=_init)
    try:
        it = pool.imap_unordered(_call, jobs)
        while True:
            try:
                x = it.next(timeout=max(.01, end - time.time()))
            except StopIteration:
                break
            except mp.TimeoutError:
                cut = True
                break
            if isinstance(x, str):
                errors.append(x)
                if len(errors) > 3:
                    break
                continue
            total.merge(x)
            if any(not listed(kn, ctx.pid, b) for b in x.bads):
                fresh = True
                end = min(end, time.time() + GRACE)
            if fresh and len(total.bads) >= 12:
                break
    finally:
        end_pool(pool)
    if cut and not fresh:
        total.add('stopped-at-time-limit')
    return total, errors


def b64(b):
    return base64.b64encode(b).decode()


def save_replay(pid, bad, n):
    os.makedirs(REPLAY, exist_ok=True)
    p = os.path.join(REPLAY, '%s-%d.json' % (pid, n))
    c = bad.case
    o = {'property': pid, 'kind': bad.kind, 'what': bad.text[:4000], 'seed': bad.seed,
         'build': bad.exe, 'extra': bad.extra}
    if c is not None:
        o.update(argv0=c.argv0, tty=c.tty, args=[a if isinstance(a, str) else a.decode('latin1') for a in c.args],
                 env={k: (v if isinstance(v, (str, type(None))) else v.decode('latin1'))
                      for k, v in c.env.items()}, locale=c.locale,
                 script_b64=b64(c.script), script=c.script.decode('latin1')[:4000],
                 files={(k if isinstance(k, str) else k.decode('latin1')):
                        None if v is None else b64(v)
                        for k, v in c.files.items()})
        if c.stdout is not None:
            o['expected_stdout_b64'] = b64(c.stdout[:200000])
    with open(p, 'w') as f:
        json.dump(o, f, indent=1)
    return p


def known():
    """Findings listed as open: [(property, key)]."""
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('finding: '):
                f = l[9:].split(None, 1)
                out.append((f[0].split('=', 1)[1], f[1].strip()))
    return out


def listed(kn, pid, bad):
    for p, key in kn:
        if p == pid and key.split(' -- ')[0] in bad.text:
            return key
    return None


def finish(pid, tier, seed, total, t0, rule, level, minimum, assumptions, errors, hook,
           extra=None):
    kn = known()
    shown, fresh = [], []
    for b in total.bads:
        key = listed(kn, pid, b)
        if key:
            shown.append((key, b))
        else:
            fresh.append(b)
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': level,
        'coverage': {
            'evaluations': total.evals,
            'distinct_nontrivial': len(total.hashes),
            'rule': rule,
            'samples': total.samples[:4],
            'observed': {k: total.cov[k] for k in sorted(total.cov)},
            'generated_inputs_dropped_as_unspecified': total.dropped,
            'inconclusive': total.inconclusive,
            'state_hook': bool(hook),
        },
        'assumptions': assumptions,
        'wall_s': round(time.time() - t0, 1),
        'violations': len(fresh),
    }
    if extra:
        ev['coverage'].update(extra)
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for key in sorted(set(k for k, _ in shown)):
        print('KNOWN-FINDING: property=%s %s' % (pid, key))
    if errors:
        for e in errors[:3]:
            print('HARNESS ERROR:\n' + e)
    if fresh:
        for n, b in enumerate(fresh[:5]):
            p = save_replay(pid, b, n)
            print('VIOLATION property=%s replay=%s' % (pid, p))
            print('  ' + b.text[:700])
        return 1
    if errors:
        return 2
    if len(total.hashes) < minimum:
        print('too little observed: %d of at least %d' % (len(total.hashes), minimum))
        return 2
    if total.inconclusive > max(3, total.evals // 50):
        print('too many inconclusive runs: %d of %d' % (total.inconclusive, total.evals))
        return 2
    print('%s %s: %d executions, %d distinct non-trivial, %d inconclusive, %.1fs' % (
        pid, tier, total.evals, len(total.hashes), total.inconclusive, time.time() - t0))
    return 0


def scratch():
    d = tempfile.mkdtemp(prefix='edv.', dir=os.environ.get('EDV_TMP', '/tmp'))
    os.chmod(d, 0o755)
    return d
