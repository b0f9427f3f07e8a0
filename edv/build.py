"""Build instrumented variants of ed from the current /repo working tree.

Everything happens in a copy of the tree under /verif/build (ignored by
git), so that /repo is never written to.  The copy is private to one
process tree (a directory per run) unless EDV_REUSE is set.
"""
import hashlib, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('EDV_REPO', '/repo')
OUT = os.path.join(VERIF, 'build')
JOBS = str(os.cpu_count() or 8)
NOAUTO = ['AUTOCONF=:', 'AUTOMAKE=:', 'ACLOCAL=:', 'AUTOHEADER=:', 'MAKEINFO=:']

SHIM = os.path.join(VERIF, 'shim', 'shim.c')


def wraps():
    """Functions the shim stands in for."""
    return sorted(set(re.findall(r'\b__wrap_(\w+)', open(SHIM).read())))


VARIANTS = {
    # name: (cc, lib flags, src flags, link flags, shim?)
    'fast': ('clang', '-g -O1', '-g -O1', '', False),
    'asan': ('clang', '-g -O1 -fsanitize=address -fno-omit-frame-pointer',
             '-g -O1 -fsanitize=address,undefined -fno-sanitize=shift-base '
             '-fno-omit-frame-pointer', '-fsanitize=address,undefined', False),
    'fault': ('clang', '-g -O1 -fsanitize=address -fno-omit-frame-pointer',
              '-g -O1 -fsanitize=address,undefined -fno-sanitize=shift-base '
              '-fno-omit-frame-pointer -fsanitize-coverage=edge,trace-pc',
              '-fsanitize=address,undefined', True),
    'ffault': ('clang', '-g -O1', '-g -O1 -fsanitize-coverage=edge,trace-pc', '', True),
    'msan': ('clang', '-g -O1 -fsanitize=memory -fno-omit-frame-pointer',
             '-g -O1 -fsanitize=memory -fno-omit-frame-pointer',
             '-fsanitize=memory', False),
}


class BuildError(Exception):
    pass


def _run(cmd, cwd, env=None):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)
    if p.returncode:
        raise BuildError('%s (in %s) failed:\n%s' % (
            ' '.join(cmd), cwd, p.stdout.decode('utf8', 'replace')[-3000:]))
    return p.stdout


def _copy(dst):
    os.makedirs(dst)
    a = subprocess.Popen(['tar', '-C', REPO, '--exclude=./.git', '--exclude=./testsuite',
                          '--exclude=./debian', '--exclude=./po', '-cf', '-', '.'],
                         stdout=subprocess.PIPE)
    b = subprocess.run(['tar', '-C', dst, '-xf', '-'], stdin=a.stdout)
    a.stdout.close()
    if a.wait() or b.returncode:
        raise BuildError('copy failed')


def _configure(d):
    """Only needed when the working tree was never configured."""
    if os.path.exists(d + '/config.h') and os.path.exists(d + '/lib/Makefile'):
        return
    d2 = d + '.cfg'
    a = subprocess.Popen(['tar', '-C', REPO, '--exclude=./.git', '-cf', '-', '.'],
                         stdout=subprocess.PIPE)
    os.makedirs(d2)
    subprocess.run(['tar', '-C', d2, '-xf', '-'], stdin=a.stdout, check=True)
    a.wait()
    env = dict(os.environ, CC='gcc')
    if not os.path.exists(d2 + '/configure'):
        _run(['sh', './autogen'], d2, env)
    _run(['sh', './configure', '--enable-all-extensions',
          '--with-included-regex', 'CC=gcc'], d2, env)
    _run(['make', 'config.h'], d2, env)
    shutil.rmtree(d)
    os.rename(d2, d)


def _lib(d, cc, flags):
    subprocess.run('rm -f lib/*.o lib/*.a lib/malloc/*.o lib/glthread/*.o '
                   'lib/uniwidth/*.o lib/unistr/*.o lib/limits.h', shell=True, cwd=d)
    _run(['make', '-C', 'lib', '-j' + JOBS, 'all'] + NOAUTO +
         ['CC=' + cc, 'CFLAGS=' + flags + ' -w'], d)


def _sources(d):
    """The editor's C files: those of the generated Makefile, else all."""
    src = sorted(f for f in os.listdir(d + '/src') if f.endswith('.c'))
    return src


def _src(d, od, cc, flags, hook):
    inc = ['-DHAVE_CONFIG_H', '-Isrc', '-I.', '-Ilib', '-Iinclude',
           '-DLOCALEDIR="/usr/local/share/locale"', '-DRE_ENABLE_I18N=1', '-w']
    if hook:
        inc.append('-DED_VERIF')
    os.makedirs(od, exist_ok=True)

    def one(f):
        o = os.path.join(od, f[:-2] + '.o')
        _run([cc] + inc + flags.split() + ['-c', 'src/' + f, '-o', o], d)
        return o
    with ThreadPoolExecutor(int(JOBS)) as ex:
        return list(ex.map(one, _sources(d)))


def build(variants, root=None, verbose=True):
    """Build the given variants; return {variant: path, 'hook': bool}."""
    t0 = time.time()
    root = root or os.path.join(OUT, 'b%d' % os.getpid())
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    base = os.path.join(root, 'tree')
    _copy(base)
    _configure(base)
    libs = {}
    res = {'hook': True, 'root': root}

    def one(v):
        cc, lf, sf, ld, shim = VARIANTS[v]
        d = os.path.join(root, 'lib-' + hashlib.md5((cc + lf).encode()).hexdigest()[:8])
        if d not in libs:
            shutil.copytree(base, d, symlinks=True)
            _lib(d, cc, lf)
            libs[d] = True
        od = os.path.join(root, 'obj-' + v)
        if res['hook']:
            try:
                objs = _src(d, od, cc, sf, True)
            except BuildError as e:
                # The hook no longer compiles (the code around it was
                # restructured): judge by output and files alone.
                res['hook'] = False
                res['hook_error'] = str(e)
        if not res['hook']:
            objs = _src(d, od, cc, sf, False)
        exe = os.path.join(root, 'ed-' + v)
        extra = []
        if shim:
            so = os.path.join(root, 'shim-%s.o' % v)
            _run([cc, '-g', '-O1', '-w', '-c', SHIM, '-o', so], root)
            extra = [so] + ['-Wl,--wrap=' + w for w in wraps()]
        _run([cc, '-g'] + ld.split() + objs + extra +
             [d + '/lib/libgnu.a', '-lssl', '-lcrypto', '-o', exe], root)
        return exe

    for v in variants:
        res[v] = one(v)
    shutil.rmtree(base, ignore_errors=True)
    if verbose:
        print('built %s in %.1fs%s' % (', '.join(variants), time.time() - t0,
              '' if res['hook'] else ' (without hook)'), flush=True)
    return res


def cleanup(res):
    shutil.rmtree(res['root'], ignore_errors=True)


if __name__ == '__main__':
    r = build(sys.argv[1:] or ['fast', 'asan'], root=os.path.join(OUT, 'dev'))
    print(r)
