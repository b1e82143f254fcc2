#!/usr/bin/env python3
"""Tries checks on a changed copy of /repo.
trial.py PATCH [-R] [--checks C01,C02] [--no-tests] [--demo DIR]
Copies /repo's working tree to /tmp, applies PATCH (reversed with -R), builds and runs the existing tests,
runs DIR/demo.sh in the changed and the unchanged copy, and runs the quick checks on the changed copy."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


def tests(d):
    """Builds as /opt/vp/build.sh does, and runs the stable tests; returns a reason or None."""
    env = dict(os.environ, CC='gcc', LC_ALL='C.UTF-8', TMPDIR=d + '/_t')
    os.makedirs(d + '/_t', exist_ok=True)
    r = sh('cmake -S %s -B %s/_build -G Ninja -DCMAKE_C_COMPILER=gcc -DCMAKE_BUILD_TYPE=Debug -DCMAKE_POLICY_VERSION_MINIMUM=3.5 -DBUILD_TESTS=ON -DBUILD_SAMPLE=ON -DCMAKE_C_FLAGS=-Wno-error -Wno-dev && ninja -C %s/_build' % (d, d, d), env=env)
    if r.returncode:
        return 'build failed\n' + r.stdout[-2000:]
    for exe in ('squash_tests', 'squash_sample'):
        r = sh('timeout 60 %s/_build/%s' % (d, exe), env=env, cwd=d + '/_t')
        if r.returncode:
            return exe + ' failed\n' + r.stdout[-500:]
    os.makedirs(d + '/_i', exist_ok=True)
    r = sh('python3 /opt/vp/isolate.py %s/tests/main.c %s/_i/main.c' % (d, d))
    names = r.stdout.split()
    r = sh('gcc -g -w -I%s/src -I%s/include -I%s/tests -o %s/_i/driver %s/_i/main.c %s/tests/fixture.c %s/_build/libsquash.a -lz' % ((d,) * 7))
    if r.returncode:
        return 'driver failed\n' + r.stdout
    for n in names:
        r = sh('timeout 60 %s/_i/driver %s' % (d, n), env=env, cwd=d + '/_t')
        if r.returncode or ('VP-RAN ' + n) not in r.stdout:
            return n + ' failed'
    return None


def main():
    a = sys.argv[1:]
    patch = os.path.abspath(a[0])
    rev = '-R ' if '-R' in a else ''
    checks = a[a.index('--checks') + 1].split(',') if '--checks' in a else []
    d = tempfile.mkdtemp(prefix='trial-', dir='/tmp')
    rc = 0
    try:
        sh('cp -a /repo %s/repo && rm -rf %s/repo/_build && cp -a %s/repo %s/orig' % (d, d, d, d))
        r = sh('git apply %s%s || git apply -3 %s%s' % (rev, patch, rev, patch), cwd=d + '/repo')
        if r.returncode:
            print('NOAPPLY', r.stdout)
            return 3
        if '--no-tests' not in a:
            t = tests(d + '/repo')
            print('tests:', t or 'pass')
        if '--demo' in a:
            demo = os.path.abspath(a[a.index('--demo') + 1])
            sh('cp -a %s %s/demo && rm -f %s/demo/*.diff %s/demo/meta.json' % (demo, d, d, d))
            tests(d + '/orig')
            for w in ('orig', 'repo'):
                r = sh('timeout 300 bash %s/demo/demo.sh' % d, cwd=d + '/' + w)
                print('demo %s: %d %s' % (w, r.returncode, r.stdout[-300:].strip()))
        for c in checks:
            r = sh('timeout 900 python3 %s/check.py %s' % (V, c), env=dict(os.environ, VF_REPO=d + '/repo', VF_OUT=d + '/out', VERIF_SEED='1'))
            lines = r.stdout.splitlines()
            v = [l for l in lines if l.startswith('VF-VIOLATION') or l.startswith('SUMMARY')]
            hit = any(l.startswith('VIOLATION property=%s ' % c) for l in lines)
            print('%s: %s rc=%d %s' % (c, 'CAUGHT' if hit and r.returncode == 1 else 'missed', r.returncode, (v[0] if v else lines[-1] if lines else '')[:240]))
            if not hit and r.returncode:
                print(r.stdout[-1500:])
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return rc


if __name__ == '__main__':
    sys.exit(main())
