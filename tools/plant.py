#!/usr/bin/env python3
"""Plant a bug: plant.py FILE.py [id...].

FILE.py defines BUGS, a list of dicts: id, property, edits [(file, old, new)],
demo (shell text), needs, breaks, optional check (property whose check should
catch it).  Each is applied in /repo, built, tested, demonstrated and checked,
then undone; it is kept under /verif/seeded when it is a valid plant."""
import json, os, re, runpy, shutil, subprocess, sys, tempfile, time

# (A copy of the repository and scripts that build and test it may be given.)
REPO = os.environ.get('PLANT_REPO', '/repo')
VP = os.environ.get('PLANT_VP', '/opt/vp')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = HERE + '/seeded'
HEAD = '''#!/bin/bash
# Run with cwd /repo after the build.
E=$PWD/src/ed; H=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
cd "$T" || exit 2
unset ED POSIXLY_CORRECT LINES COLUMNS
export LC_ALL=C TMPDIR=$T HOME=$T
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                          errors='replace', **kw)


def blame_ok(patch):
    own = set(sh(['git', '-C', REPO, 'log', '--format=%H', 'd199b5b..HEAD']).stdout.split())
    ok, path, n = False, None, 0
    for l in patch.splitlines():
        if l.startswith('--- a/'):
            path = l[6:]
        elif l.startswith('@@'):
            n = int(re.match(r'@@ -(\d+)', l).group(1))
        elif l.startswith('-') and path:
            b = sh(['git', '-C', REPO, 'blame', '-l', '-s', '-L', '%d,%d' % (n, n), 'HEAD', '--', path]).stdout
            if b.split()[0].lstrip('^') not in own and l[1:].strip():
                ok = True
            n += 1
        elif l.startswith(' '):
            n += 1
    return ok


def undo():
    sh(['git', '-C', REPO, 'checkout', '--', '.'])


def build():
    return sh(['bash', VP + '/build.sh'])


def passed(out):
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    o = json.load(open(out))
    return base - set(o['passed']), o


def main():
    mod = runpy.run_path(sys.argv[1])
    want = sys.argv[2:]
    for b in mod['BUGS']:
        if want and b['id'] not in want:
            continue
        undo()
        demo = HEAD + b['demo'].strip() + '\n'
        d = tempfile.mkdtemp()
        dp = os.path.join(d, 'demo.sh')
        open(dp, 'w').write(demo)
        os.chmod(dp, 0o755)
        for name, text in b.get('files', {}).items():
            open(os.path.join(d, name), 'w').write(text)
        if os.path.getmtime(REPO + '/src/ed') < max(os.path.getmtime(REPO + '/src/' + f) for f in os.listdir(REPO + '/src') if f.endswith('.c')):
            build()
        r0 = sh(['timeout', '120', 'bash', dp], cwd=REPO)
        bad = None
        for f, old, new in b['edits']:
            p = os.path.join(REPO, f)
            s = open(p).read()
            if s.count(old) != 1:
                bad = 'old text occurs %d times in %s: %r' % (s.count(old), f, old[:60])
                break
            open(p, 'w').write(s.replace(old, new))
        if bad:
            print(b['id'], 'EDIT', bad)
            undo()
            continue
        patch = sh(['git', '-C', REPO, 'diff']).stdout
        r = build()
        status = []
        if r.returncode:
            status.append('BUILD FAILED ' + r.stdout[-500:])
        else:
            out = os.path.join(d, 'out.json')
            sh(['bash', VP + '/test.sh', out])
            miss, o = passed(out)
            if miss:
                status.append('TESTS FAIL %s' % sorted(miss)[:4])
            r1 = sh(['timeout', '120', 'bash', dp], cwd=REPO)
            if r0.returncode != 0:
                status.append('DEMO fails unpatched: ' + r0.stdout[-300:])
            if r1.returncode == 0:
                status.append('DEMO passes patched: ' + r1.stdout[-300:])
            if not blame_ok(patch):
                status.append('NOT ORIGINAL LINES')
        res = ''
        if not status:
            t = time.time()
            pid = b['property']
            rc = sh(['timeout', '900', 'python3', 'check.py', pid, 'quick'], cwd=HERE,
                    env=dict(os.environ, EDV_REPO=REPO, VERIF_SEED=os.environ.get('VERIF_SEED', '1'), VERIF_TIER='quick'))
            v = [l for l in rc.stdout.splitlines() if l.startswith('VIOLATION')]
            res = 'check %s rc=%d violations=%d %.0fs' % (pid, rc.returncode, len(v), time.time() - t)
            if rc.returncode != 1 or not v:
                res = 'MISSED ' + res + ' ' + rc.stdout[-300:].replace('\n', ' | ')
            dest = os.path.join(SEED, b['id'])
            shutil.rmtree(dest, ignore_errors=True)
            os.makedirs(dest)
            open(dest + '/patch.diff', 'w').write(patch)
            shutil.copy(dp, dest + '/demo.sh')
            for name in b.get('files', {}):
                shutil.copy(os.path.join(d, name), dest)
            json.dump({'property': pid, 'needs': b['needs'], 'what_it_breaks': b['breaks']},
                      open(dest + '/meta.json', 'w'), indent=1)
        undo()
        shutil.rmtree(d)
        print(b['id'], 'OK' if not status else 'INVALID', '; '.join(status), res, flush=True)
    undo()
    build()


if __name__ == '__main__':
    main()
