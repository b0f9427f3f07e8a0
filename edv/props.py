"""What each check runs."""
import base64, json, os, shutil, sys, time

from . import build, confine, core, diff, edges, fuzz, inject, lists, profiles, run, scale, scratch, scroll, writes
from . import crypt, pages, start, term

ASSUME = ['the reference model (edv/model.py) states the documented behaviour',
          'the C library regex matcher is the matching oracle',
          'sessions are generated; behaviour outside them is not covered']

RULE = ('Random sessions composed online against the reference model (most commands valid in '
        'the state they meet, some deliberately bad) under several option and locale variants; '
        'after every command text, current line, marks, modified flag and status are compared '
        'with the model, then standard output, files, exit status and scratch directory. '
        'Non-trivial: distinct session that exercises the property (%s).')


class Check(object):
    variants = ['asan']
    level = 'exploration'
    minimum = 100
    rule = RULE
    assume = ASSUME
    technique = ('runtime monitoring: sanitized build and state-trace monitor against an '
                 'executable reference model, generated sessions')
    note = ('Real editor (ASan+UBSan) on randomly generated sessions; state recorded after every '
            'command, output, files and exit status compared with the reference model. Sampled, '
            'not exhaustive.')

    def __init__(self, pid):
        self.pid = pid

    def jobs(self, ctx):
        return diff.jobs(ctx) + (edges.jobs(ctx) if self.pid in edges.GROUPS else [])

    def ruletext(self):
        return self.rule % ', '.join(profiles.P[self.pid]['focus']) + (
            ' And fixed sessions whose texts have every size near those at which buffers grow.'
            if self.pid in edges.GROUPS else '')


class Typed(Check):
    def jobs(self, ctx):
        return Check.jobs(self, ctx) + term.jobs(
            ctx, term.session_batch, 1000 if ctx.tier == 'quick' else 30000, 10, self.pid)

    def ruletext(self):
        return Check.ruletext(self) + ' A part of the sessions is typed at a terminal, with ends of file between lines.'


class Macros(Check):
    def jobs(self, ctx):
        return Check.jobs(self, ctx) + start.macro_jobs(
            ctx, 1500 if ctx.tier == 'quick' else 40000)

    def ruletext(self):
        return Check.ruletext(self) + ' A part of the sessions is given by options -e and -f, or by a file.'


class Memory(Check):
    variants = ['asan', 'msan']
    technique = ('sanitizers (ASan, UBSan, MSan) on generated sessions and on mutated scripts, '
                 'arguments, environment and files')
    note = ('Real editor under ASan+UBSan and MSan; sessions of the reference model generator and '
            'mutations of them, of options, environment and files, run without rights. Sampled.')
    rule = ('Generated sessions (all command families) and sessions mutated at byte, token and '
            'line level with random options, environment and binary files. A sanitizer report, '
            'fatal signal or sanitizer exit status is a violation. Non-trivial: distinct session '
            'with more than two commands executed.')
    assume = ['sanitizers see only executed paths',
              'OpenSSL and libc are not instrumented (ASan/MSan interceptors cover libc calls)']

    def jobs(self, ctx):
        q = ctx.tier == 'quick'
        return (diff.jobs(ctx, 'MIX', 2500 if q else 40000) +
                diff.jobs(ctx, 'CUT', 800 if q else 20000) +
                edges.jobs(ctx) +
                edges.jobs(ctx, 'msan', (8192,), range(-2, 2)) +
                scroll.wild_jobs(ctx, 1500 if q else 40000) +
                scroll.wild_jobs(ctx, 500 if q else 10000, 'msan') +
                fuzz.jobs(ctx, 8000 if q else 300000) +
                fuzz.jobs(ctx, 3000 if q else 100000, 'msan', salt=5000000))

    def ruletext(self):
        return self.rule


class Ends(Check):
    variants = ['asan', 'fast']
    technique = ('runtime monitoring: command-by-command trace against the reference model, time '
                 'limits on mutated and truncated sessions, CPU budgets on large buffers')
    note = ('Real editor; counts and order of executed commands compared with the model for sessions '
            'cut off at every kind of point; time limits far above normal need. Sampled.')
    rule = ('Sessions cut off at a random byte of a random command and whole sessions, compared '
            'command by command with the reference model, a part of them typed at a terminal; mutated sessions under a time limit; '
            'fixed large-buffer and long-line workloads under a CPU budget with their output '
            'checked. Non-trivial: distinct session that executed commands.')
    assume = Check.assume + ['time limits (15 s, 25 s of CPU) are two orders of magnitude above need']

    def jobs(self, ctx):
        q = ctx.tier == 'quick'
        return (scale.jobs(ctx) + edges.jobs(ctx) +
                diff.jobs(ctx, 'CUT', 4000 if q else 80000) +
                diff.jobs(ctx, 'MIX', 2500 if q else 40000) +
                term.jobs(ctx, term.session_batch, 1200 if q else 30000) +
                fuzz.jobs(ctx, 4000 if q else 100000, 'fast', True, salt=7000000))

    def ruletext(self):
        return self.rule


class Printed(Check):
    def jobs(self, ctx):
        q = ctx.tier == 'quick'
        return (Check.jobs(self, ctx) + pages.jobs(ctx, 4000 if q else 80000) +
                term.jobs(ctx, term.lines_batch, 1500 if q else 40000))

    def ruletext(self):
        return Check.ruletext(self) + (
            ' And ranges of up to hundreds of lines, of form feeds, controls, colours, wide and broken '
            'characters and of lengths around the window\'s, printed in windows of every size, at '
            'a terminal, too, whose window changes between commands.')


SIGRULE = ('Sessions composed against the reference model, which also lists the buffers each '
           'command passes through; the session is run up to one command with %s at a chosen '
           'edge or library call inside that command (link-time wrappers and edge coverage '
           'count them), then an epilogue shows what is left. Non-trivial: distinct (command, '
           'state, point) at which the %s happened.')


class Injected(Check):
    variants = ['fault']
    assume = Check.assume + ['signals arrive at edges of the editor\'s code and at library calls, '
                             'not inside library code', 'allocations inside the regex library do not fail']

    def ruletext(self):
        return self.rule


class Hangup(Injected):
    technique = ('runtime monitoring with injected SIGHUP: saved file against the buffers the '
                 'reference model passes through')
    note = ('SIGHUP raised at chosen points of commands of generated sessions; ed.hup (working '
            'or home directory), exit status and scratch directory checked. Sampled.')
    rule = SIGRULE % ('SIGHUP', 'signal')

    def jobs(self, ctx):
        q = ctx.tier == 'quick'
        return (inject.sig_jobs(ctx, inject.SIGHUP, 900 if q else 15000) +
                inject.start_jobs(ctx, 60 if q else 1000))


class Interrupt(Injected):
    technique = ('runtime monitoring with injected SIGINT and SIGQUIT: state trace against the '
                 'buffers the reference model passes through, later commands checked')
    note = ('SIGINT (also twice) and SIGQUIT raised at chosen points of commands of generated '
            'sessions; state, undo, write and quit afterwards checked. Sampled.')
    rule = SIGRULE % ('SIGINT (sometimes again while the next command is read) or SIGQUIT', 'signal')

    def jobs(self, ctx):
        q = ctx.tier == 'quick'
        return (inject.sig_jobs(ctx, inject.SIGINT, 1000 if q else 20000) +
                inject.sig_jobs(ctx, inject.SIGQUIT, 100 if q else 2000) +
                inject.start_jobs(ctx, 60 if q else 1000))


class Resource(Injected):
    technique = ('runtime monitoring with injected failures of library calls: sanitizers, state '
                 'trace against the buffers the reference model passes through')
    note = ('Each run fails one call (or all from one on): allocation, stream and file call, '
            'scratch file creation, pipe, fork, regex matching. Sampled.')
    rule = SIGRULE % ('one call (or every call from there on) failing', 'failure')

    def jobs(self, ctx):
        q = ctx.tier == 'quick'
        return (inject.fail_jobs(ctx, 1100 if q else 20000) +
                inject.start_jobs(ctx, 300 if q else 4000))


class Writes(Check):
    variants = ['asan', 'fault']
    technique = ('runtime monitoring: directory tree after sessions that write, against a simulated '
                 'tree; what was said against bytes of the file when space runs out or a call fails')
    note = ('Sessions that write, append and re-read files with links, missing rights and outside '
            'changes; writes on a full file system (tmpfs of its own name space) and with one '
            'failing call, followed by a second write. Sampled.')
    rule = ('Histories: generated sessions run without rights in a tree of files, links and '
            'directories changed by shell commands between; state after every command, output and '
            'the whole tree afterwards compared with the model. Limits and failures: generated '
            'session, a write that has room for only part or one of whose library calls fails, a '
            'change, a write that has room; reported success must mean exact bytes, reported '
            'failure an unchanged, still modified buffer. Non-trivial: distinct history that '
            'writes, or distinct (session, limit or failing call).')
    assume = Check.assume + ['failing calls are those the editor makes, not those inside the C library']

    def jobs(self, ctx):
        q = ctx.tier == 'quick'
        return writes.jobs(ctx, 3500 if q else 60000, 1500 if q else 30000, 450 if q else 8000)

    def ruletext(self):
        return self.rule


class Scroll(Check):
    technique = ('runtime monitoring: pages shown and current line after every scroll command '
                 'against the lines the state record holds; whole walks against the text')
    note = ('Random sequences of z, Z, [ and ] with addresses and heights among prints and changes, '
            'exact pages for z and Z; page-by-page walks in both directions through buffers of '
            'folded ASCII and UTF-8 lines. Sampled.')
    rule = ('Scroll sessions over buffers of 0 to 100 lines, windows of 2 to 30 rows, given by LINES or '
            'by a terminal that may change its size between commands; walks over '
            'lines up to several pages long. Every page must be the expected lines (z, Z), or a '
            'window of lines in order that overlaps or adjoins the page before ([, ]); the current '
            'line the last one shown; both ends reported. Walks must show every byte once, in '
            'order, in full pages. Non-trivial: distinct session.')
    assume = ['state records (ED_VERIF hook) give the text', 'half pages only for windows of 4 rows or more '
              'and lines narrower than the window, as documented',
              'width of UTF-8 rows is not checked, only their text']

    def jobs(self, ctx):
        return scroll.jobs(ctx) + term.jobs(ctx, term.narrow_batch, 1500 if ctx.tier == 'quick' else 40000)

    def ruletext(self):
        return self.rule


class Confined(Check):
    variants = ['asan', 'fast']
    technique = ('runtime monitoring: state trace of restricted sessions against the reference model; '
                 'system-call trace, files beside the directory and planted marks during escape attempts')
    note = ('Editor started as red: sessions of local edits and refused commands compared with the model; '
            'sessions that try every kind of name, list, pattern, shell command, option and environment '
            'setting, run without rights under strace. Links that leave the directory are not judged. Sampled.')
    rule = ('Model sessions with refused names and shell commands between local edits: refusals, '
            'buffer, files compared after every command. Escape sessions: no program started, no file '
            'outside the directory, no directory, FIFO or link to one opened, nothing outside '
            'changed, no byte of a file outside shown or copied. Non-trivial: distinct session with '
            'refusals.')
    assume = Check.assume + ['scratch directory, C library files and standard input are no escape']

    def jobs(self, ctx):
        q = ctx.tier == 'quick'
        return confine.jobs(ctx, 2400 if q else 60000) + diff.jobs(ctx)

    def ruletext(self):
        return self.rule


class Lists(Check):
    variants = ['asan', 'fast']
    technique = ('runtime monitoring: state trace, printed names and counts, and every file of the '
                 'directory compared with a reference model of the file list and pattern expansion')
    note = ('Sessions of ~e ~E ~f ~r ~w with n and p forms over directories of several files. Patterns '
            'with backslashes, dot components or locale-dependent ranges are not generated. Sampled.')
    rule = ('Generated directory, optional file arguments, and list commands mixed with edits, globals, '
            'macros and plain file commands; buffer, default file, list position, output and all files '
            'compared. Non-trivial: distinct session that set or moved in a list at least twice.')

    def jobs(self, ctx):
        return lists.jobs(ctx, 6000 if ctx.tier == 'quick' else 200000)

    def ruletext(self):
        return self.rule


class Invoked(Check):
    variants = ['asan', 'fast']
    technique = ('runtime monitoring: state trace, output, error place, exit status and files of sessions '
                 'started in many equivalent ways compared with a reference model of options and scripts')
    note = ('Scripts delivered by pipe, file, -e and -f pieces, options in ED and on the command line, '
            'in-place editing, address arguments and file lists; refused options. -x, -h and -V text '
            'and terminals are not judged here. Sampled.')
    rule = ('Generated script, options and files; options written short, bundled, long, abbreviated or in '
            'ED, in any order; buffer and file list followed through every file. Refused invocations: '
            'exit status, usage, nothing changed. Non-trivial: distinct invocation.')

    def jobs(self, ctx):
        return start.jobs(ctx, 9000 if ctx.tier == 'quick' else 200000)

    def ruletext(self):
        return self.rule


class Enciphered(Check):
    variants = ['asan', 'fast']
    technique = ('runtime monitoring: state trace of sessions under keys compared with the reference model; '
                 'files on disk examined and read back by another session')
    note = ('Keys given on standard input (no terminal), by x and -x, as text, binary and hexadecimal. '
            'Strength of the cipher and compatibility with other programs are not judged. Sampled.')
    rule = ('Sessions that set, change and unset keys between edits, whole and partial writes and reads: '
            'buffer, sizes, messages as without a key; each enciphered file has the length of its padded '
            'text, shows no eight bytes of it, and is read back exactly by another session. Round trips of '
            'all block residues, binary contents and buffer-sized files. Non-trivial: distinct session or '
            'set of contents that was enciphered.')
    assume = Check.assume + ['getpass reads standard input when there is no terminal']

    def jobs(self, ctx):
        return crypt.jobs(ctx, 4000 if ctx.tier == 'quick' else 100000)

    def ruletext(self):
        return self.rule


class Scratch(Injected):
    variants = ['fault', 'asan', 'fast']
    technique = ('runtime monitoring: probe inside the session (rights of scratch files, open '
                 'files of the editor), system-call trace, directory listings after every ending, '
                 'injected signals and failures')
    note = ('Sessions of all endings, TMPDIR settings and umasks, run without rights; scratch files '
            'observed while the editor runs and after it ends. Sampled.')
    rule = ('Generated sessions with random ending, options, TMPDIR and umask, with probes between '
            'commands that list scratch files and the open files of the editor, a third of them '
            'under strace; and sessions with signals and failing calls. Non-trivial: distinct '
            'session or injection.')

    def jobs(self, ctx):
        q = ctx.tier == 'quick'
        return (scratch.jobs(ctx, 3600 if q else 60000) +
                inject.start_jobs(ctx, 250 if q else 4000) +
                inject.fail_jobs(ctx, 150 if q else 3000) +
                inject.sig_jobs(ctx, inject.SIGHUP, 150 if q else 3000) +
                inject.sig_jobs(ctx, inject.SIGINT, 100 if q else 2000))


CHECKS = {p: Check(p) for p in profiles.P if p.startswith('P')}
CHECKS['P01'] = Memory('P01')
CHECKS['P24'] = Ends('P24')
CHECKS['P08'] = Writes('P08')
CHECKS.update((p, Typed(p)) for p in ('P05', 'P09', 'P10'))
CHECKS['P12'] = Macros('P12')
CHECKS['P13'] = Printed('P13')
CHECKS['P14'] = Scroll('P14')
CHECKS['P15'] = Confined('P15')
CHECKS['P17'] = Invoked('P17')
CHECKS['P18'] = Scratch('P18')
CHECKS['P19'] = Hangup('P19')
CHECKS['P20'] = Interrupt('P20')
CHECKS['P21'] = Resource('P21')
CHECKS['P22'] = Enciphered('P22')
CHECKS['P23'] = Lists('P23')


def check(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    if pid not in CHECKS:
        print('unknown property', pid)
        return 2
    c = CHECKS[pid]
    base = core.scratch()
    exes = None
    try:
        exes = build.build(c.variants)
        os.mkdir(base + '/bin', 0o755)
        use = dict(exes)                 # (copies anyone may execute)
        for v in c.variants:
            use[v] = '%s/bin/ed-%s' % (base, v)
            shutil.copy(exes[v], use[v])
            os.chmod(use[v], 0o755)
        ctx = core.Ctx(pid, tier, seed, use, base)
        total, errors = core.parallel(ctx, c.jobs(ctx))
        return core.finish(pid, tier, seed, total, t0, c.ruletext(), c.level, c.minimum,
                           c.assume, errors, ctx.hook)
    except build.BuildError as e:
        print('HARNESS ERROR: build failed:', e)
        return 2
    finally:
        shutil.rmtree(base, ignore_errors=True)
        if exes:
            build.cleanup(exes)


def replay(path):
    o = json.load(open(path))
    if 'script_b64' not in o:
        print(json.dumps(o, indent=1))
        return 0
    base = core.scratch()
    exes = build.build([o['build']])
    if (o.get('extra') or {}).get('how'):
        print('recorded:', o['what'])
        os.chmod(exes[o['build']], 0o755)
        w = writes if o['extra']['how'] in writes.HOWS else inject
        r, d = w.again(o, exes[o['build']], base)
        print('now:', d or 'nothing wrong')
        if r is not None:
            print('records %d, exit %d' % (len(r.records or ()), r.exit))
        shutil.rmtree(base, ignore_errors=True)
        build.cleanup(exes)
        return 0
    c = run.Case(base64.b64decode(o['script_b64']), o['args'], o['env'],
                 {k.encode('latin1'): None if v is None else base64.b64decode(v)
                  for k, v in o['files'].items()}, o['locale'])
    c.argv0 = o.get('argv0')
    c.tty = o.get('tty')
    r = run.run(exes[o['build']], c, base, timeout=120)
    print('recorded:', o['what'])
    sys.stdout.flush()
    sys.stdout.buffer.write(b'--- stdout\n' + r.stdout + b'--- stderr\n' + r.stderr[-4000:])
    sys.stdout.flush()
    print('exit', r.exit, 'timeout', r.timeout)
    shutil.rmtree(base, ignore_errors=True)
    build.cleanup(exes)
    return 0
