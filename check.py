#!/usr/bin/env python3
"""Runs the check of one property: check.py C01 [--thorough] [--replay FILE]

Builds the library of /repo's working tree with the instrumentation of each variant, runs the property's
driver on generated workloads, and reports what the monitors saw.
Exit 0: held on everything explored. Exit 1 with a VIOLATION line: broken. Anything else: the check itself failed.
"""
import concurrent.futures, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VF_REPO', '/repo')            # another tree, to try out changes to the code
OUT = VERIF if REPO == '/repo' else os.environ['VF_OUT']
BUILD = os.path.join(VERIF, 'build')
HARNESS = os.path.join(VERIF, 'harness')
JOBS = 8
PARTS = 29
HANG = 150            # seconds without a new case

sys.path.insert(0, os.path.join(VERIF, 'tools'))
from checks import CHECKS, UNPRIVILEGED  # noqa: E402

COMMON = ['vf.cpp', 'image.cpp', 'query.cpp', 'interpose.cpp', 'main.cpp']
VARIANTS = {
    # library flags, harness flags
    'asan': ('-O1 -g -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize=alignment -fno-sanitize-recover=all -ftrivial-auto-var-init=pattern -fstrict-flex-arrays=3',
             '-O1 -g -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize=all -fsanitize=address'),
    # what is not initialized is zero, in all else like asan: every second shard of it, see TWIN
    'asanz': (None, None),
    'tsan': ('-O1 -g -fno-omit-frame-pointer -fsanitize=thread', '-O1 -g -fno-omit-frame-pointer -fsanitize=thread'),
    'plain': ('-O2 -g', '-O2 -g'),
    # under valgrind: decisions that depend on what was never written
    'memcheck': ('-O1 -g -fno-omit-frame-pointer', '-O1 -g -fno-omit-frame-pointer'),
}
VARIANTS['asanz'] = (VARIANTS['asan'][0].replace('init=pattern', 'init=zero'), VARIANTS['asan'][1])
TWIN = {'asan': 'asanz'}
LINK = {'asanz': '-fsanitize=address,undefined', 'asan': '-fsanitize=address,undefined', 'tsan': '-fsanitize=thread', 'plain': '', 'memcheck': ''}
CC, CXX = 'clang', 'clang++'


class BuildError(Exception):
    pass


def sh(cmd):
    p = subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError(cmd + '\n' + p.stdout[-6000:])


def digest(paths, extra=''):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(os.path.basename(p).encode())
        with open(p, 'rb') as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def build(variant, sources, sample=False):
    """Returns the path of the driver. Objects are kept by the hash of everything they depend on."""
    lib_flags, har_flags = VARIANTS[variant]
    os.makedirs(BUILD, exist_ok=True)
    headers = glob.glob(REPO + '/include/**/*.h', recursive=True)
    hheaders = glob.glob(HARNESS + '/*.h')
    hdig = digest(headers)
    lib = sorted(glob.glob(REPO + '/src/*.c'))
    renames = HARNESS + '/renames.txt'
    jobs, objs = [], []

    def want(name, dig, cmds, variant=variant):
        o = os.path.join(BUILD, '%s-%s-%s.o' % (os.path.basename(name), variant, dig))
        objs.append(o)
        if not os.path.exists(o) and o not in [j[0] for j in jobs]:
            jobs.append((o, cmds))

    for c in lib:
        dig = digest([c, renames], hdig + lib_flags)
        want(c, dig, ['%s %s -w -I%s/include -c %s -o {o}' % (CC, lib_flags, REPO, c), 'objcopy --redefine-syms=%s {o}' % renames])
    if sample:
        sdig = digest(glob.glob(REPO + '/sample/*.[ch]'), hdig)
        for c in sorted(glob.glob(REPO + '/sample/enclose_io_unix.c') + glob.glob(REPO + '/sample/*.c')):
            if os.path.basename(c) in ('enclose_io_win32.c', 'enclose_io_main.c', 'enclose_io_memfs.c', 'enclose_io_unix.c') and os.path.basename(c) != 'enclose_io_unix.c':
                continue
            want(c, digest([c], sdig + lib_flags), ['%s %s -w -DRUBY_EXPORT -I%s/include -I%s/sample -c %s -o {o}' % (CC, lib_flags, REPO, REPO, c)])
        objs[:] = list(dict.fromkeys(objs))
    extra = ' -DRUBY_EXPORT -I%s/sample' % REPO if sample else ''
    for c in sources:
        p = os.path.join(HARNESS, c)
        dig = digest([p] + hheaders, hdig + har_flags + extra + (sdig if sample else ''))
        comp = '%s -std=c++17' % CXX if c.endswith('.cpp') else CC
        want(p, dig, ['%s %s -w -I%s/include%s -c %s -o {o}' % (comp, har_flags, REPO, extra, p)], 'asan' if variant == 'asanz' else variant)

    def run(job):
        o, cmds = job
        t = o + '.%d.tmp.o' % os.getpid()
        try:
            for c in cmds:
                sh(c.replace('{o}', t))
            os.replace(t, o)
        finally:
            if os.path.exists(t):
                os.unlink(t)
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(run, jobs))
    exe = os.path.join(BUILD, 'driver-%s-%s' % (variant, digest(objs)))
    if not os.path.exists(exe):
        t = exe + '.%d.tmp' % os.getpid()
        sh('%s %s -o %s %s -lz -lpthread -ldl' % (CXX, LINK[variant], t, ' '.join(objs)))
        os.replace(t, exe)
    return exe


def known_findings():
    """Lines 'finding: property=<id> sig=<signature> case=<text in the report> -- what fails'"""
    out = []
    p = os.path.join(VERIF, 'KNOWN_FINDINGS')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'finding: property=(\S+) sig=(\S+) match="([^"]*)" -- (.*)', line.strip())
            if m:
                out.append(m.groups())
    return out


class Shard:
    def __init__(self, exe, prop, variant, seed, first, stride, cases, seconds, thorough, scratch, env, unprivileged):
        self.a = dict(exe=exe, prop=prop, variant=variant, seed=seed, first=first, stride=stride, cases=cases, seconds=seconds, thorough=thorough)
        self.variant = variant
        self.dir = os.path.join(scratch, 's%s-%d-%d' % (variant, first, int(time.time() * 1e6) % 10**9))
        os.makedirs(os.path.join(self.dir, 'tmp'))
        self.out_path = os.path.join(self.dir, 'out')
        self.err_path = os.path.join(self.dir, 'err')
        e = dict(env)
        e['TMPDIR'] = os.path.join(self.dir, 'tmp')
        self.out = open(self.out_path, 'wb')
        self.err = open(self.err_path, 'wb')
        kw = {}
        if unprivileged:
            for d in (self.dir, e['TMPDIR']):
                os.chown(d, 65534, 65534)
            kw = dict(user=65534, group=65534, extra_groups=[])
        cmd = [exe, '--prop', prop, '--seed', str(seed), '--first', str(first), '--stride', str(stride), '--cases', str(cases),
               '--seconds', str(seconds), '--thorough', '1' if thorough else '0', '--scratch', e['TMPDIR']]
        if variant == 'memcheck':
            e['VF_VALGRIND'] = '1'
            cmd = ['valgrind', '-q', '--error-exitcode=66', '--exit-on-first-error=yes', '--num-callers=20', '--undef-value-errors=yes',
                   '--suppressions=' + os.path.join(HARNESS, 'memcheck.supp')] + cmd
        self.p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL if False else open('/dev/null'), stdout=self.out, stderr=self.err, env=e, cwd=self.dir,
                                  start_new_session=True, **kw)
        self.last_size, self.last_t, self.hung = -1, time.time(), False

    def poll(self, hang):
        if self.p.poll() is not None:
            return True
        s = os.path.getsize(self.out_path)
        if s != self.last_size:
            self.last_size, self.last_t = s, time.time()
        elif time.time() - self.last_t > hang:
            self.hung = True
            self.kill()
            self.p.wait()
            return True
        return False

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass

    def text(self):
        with open(self.out_path, 'rb') as f:
            o = f.read().decode('utf-8', 'replace')
        with open(self.err_path, 'rb') as f:
            f.seek(0, 2)
            n = f.tell()
            f.seek(max(0, n - 200000))
            e = f.read().decode('utf-8', 'replace')
        return o, e

    def outcome(self):
        """('ok', result) | ('violation', sig, report, case) | ('hang', case) | ('error', text)"""
        self.kill()  # what it left behind
        o, e = self.text()
        rc = self.p.returncode
        begins = re.findall(r'^VF-BEGIN .*case=(\d+)', o, re.M)
        case = int(begins[-1]) if begins else self.a['first']
        if self.hung:
            return ('hang', case, o[-3000:])
        m = re.search(r'^VF-VIOLATION (\S+) \| (.*)$', o, re.M)
        if m:
            return ('violation', m.group(1), o[o.index('VF-VIOLATION'):][:20000] + '\n' + e[-6000:], case)
        if rc == 0:
            m = re.search(r'^VF-RESULT (.*)$', o, re.M)
            if m:
                return ('ok', json.loads(m.group(1)))
            return ('error', 'no result\n' + o[-2000:] + e[-2000:])
        if rc == 2:
            return ('error', o[-2000:] + e[-2000:])
        if 'VF-START' not in o:
            return ('error', 'the driver did not start\n' + o[-2000:] + e[-2000:])
        # a sanitizer, an assertion or a signal
        sig = 'crash'
        m = re.search(r'SUMMARY: (\w+): (\S+) (\S*)', e) or re.search(r'runtime error: ()(.*)()', e)
        if m:
            sig = 'sanitizer:' + re.sub(r'\W+', '-', (m.group(2) or '')[:60])
        elif self.variant == 'memcheck' and rc == 66:
            m = re.search(r'^==\d+== (\w[^\n]*)', e, re.M)
            sig = 'memcheck:' + re.sub(r'\W+', '-', (m.group(1) if m else '')[:60])
        elif 'Assertion' in e:
            sig = 'assertion'
        elif rc < 0:
            sig = 'signal-%d' % -rc
        return ('violation', sig, 'exit status %s\n' % rc + e[-12000:] + '\nlast case: ' + '\n'.join(o.splitlines()[-3:]), case)


def run_property(prop, tier, seed, replay=None):
    t0 = time.time()
    spec = CHECKS[prop]
    thorough = tier == 'thorough'
    known = [k for k in known_findings() if k[0] == prop]
    env = {k: v for k, v in os.environ.items() if k not in ('TMP', 'TEMP')}
    env.update(ASAN_OPTIONS='exitcode=66:detect_leaks=0:detect_stack_use_after_return=1:allocator_may_return_null=1:max_malloc_fill_size=1048576:malloc_fill_byte=190:check_initialization_order=0:handle_abort=1:quarantine_size_mb=64',
               UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1:exitcode=66', TSAN_OPTIONS='halt_on_error=1:exitcode=66:second_deadlock_stack=1:report_signal_unsafe=0')
    scratch = tempfile.mkdtemp(prefix='vf-%s-' % prop, dir='/tmp')
    os.chmod(scratch, 0o755)
    os.makedirs(os.path.join(OUT, 'replay'), exist_ok=True)
    os.makedirs(os.path.join(OUT, 'evidence'), exist_ok=True)
    total = dict(evaluations=0, distinct=set(), counters={}, samples=[], runs=[])
    violations, errors, known_hit, hangs = [], [], [], []
    try:
        runs = spec['runs']
        if replay:
            runs = [dict(r, variant=replay['variant']) for r in runs if replay['variant'] in (r['variant'], TWIN.get(r['variant']))]
            seed = replay['seed']
        exes = {}
        for r in runs:
            for v in (r['variant'], TWIN.get(r['variant'])):
                if v and v not in exes:
                    exes[v] = build(v, COMMON + spec['sources'], spec.get('sample', False))
        if spec.get('sample'):
            src = os.path.join(HARNESS, 'probe_so.c')
            so = os.path.join(BUILD, 'probe-%s.so' % digest([src]))
            if not os.path.exists(so):
                sh('%s -O1 -w -s -shared -fPIC -nostdlib -o %s.%d.tmp %s' % (CC, so, os.getpid(), src))
                os.replace('%s.%d.tmp' % (so, os.getpid()), so)
            env['VF_PROBE_SO'] = so
        build_s = time.time() - t0
        for r in runs:
            n = r['thorough'] if thorough else r['quick']
            limit = r.get('thorough_s', 1500) if thorough else r.get('quick_s', 200)
            jobs = r.get('jobs', JOBS)

            def start(first, stride, cases, secs, variant=None):
                v = variant or (TWIN.get(r['variant'], r['variant']) if first % 2 else r['variant'])
                e = dict(env, ASAN_OPTIONS=env['ASAN_OPTIONS'].replace('fill_byte=190', 'fill_byte=0')) if v == 'asanz' else env
                return Shard(exes[v], prop, v, seed, first, stride, cases, secs, thorough, scratch, e, prop in UNPRIVILEGED)
            if replay:
                shards = [start(replay['case'], 1, 1, 600, replay['variant'])]
            else:
                shards = []
            begun = time.time()
            redo = []
            # more shards than cores, and a number that shares no factor with the periods of the drivers
            parts = min(PARTS, n)
            waiting = [] if replay else list(range(parts))
            while shards or waiting:
                while waiting and len(shards) < jobs and not violations:
                    i = waiting.pop(0)
                    shards.append(start(i, parts, (n - i + parts - 1) // parts, max(1, limit - (time.time() - begun))))
                if violations:
                    waiting = []
                time.sleep(0.05)
                for s in list(shards):
                    if not s.poll(HANG):
                        if violations and time.time() - begun > 5:
                            s.kill()   # enough is known
                        continue
                    shards.remove(s)
                    if violations and s.p.returncode == -9 and not s.hung:
                        continue
                    out = s.outcome()
                    if out[0] == 'ok':
                        res = out[1]
                        total['evaluations'] += res['evaluations']
                        total['distinct'].update(res['distinct'])
                        for k, v in res['counters'].items():
                            total['counters'][k] = total['counters'].get(k, 0) + v
                        total['samples'] += [x for x in res['samples'] if x not in total['samples']]
                    elif out[0] == 'violation':
                        _, sig, report, case = out
                        if sig == 'signal-9' and (s.variant, case) not in redo:
                            redo.append((s.variant, case))    # perhaps the sandbox was short of memory
                            shards.append(start(case, 1, 1, 300, s.variant))
                            continue
                        k = [f for f in known if f[1] == sig and f[2] in report]
                        if k:
                            if k[0] not in known_hit:
                                known_hit.append(k[0])
                            rest = s.a['cases'] - (case - s.a['first']) // s.a['stride'] - 1
                            if rest > 0:
                                shards.append(start(case + s.a['stride'], s.a['stride'], rest, max(1, limit - (time.time() - begun)), s.variant))
                            continue
                        violations.append((s.variant, sig, report, case))
                    elif out[0] == 'hang':
                        if (s.variant, out[1]) in hangs:
                            violations.append((s.variant, 'hang', out[2], out[1]))
                        else:
                            hangs.append((s.variant, out[1]))
                            shards.append(start(out[1], 1, 1, 600, s.variant))
                    else:
                        errors.append(out[1])
            total['runs'].append(dict(variant=r['variant'], cases=n, wall_s=round(time.time() - begun, 2)))
            if violations:
                break
    except BuildError as ex:
        print('BUILD FAILED\n%s' % ex, file=sys.stderr)
        return 2
    finally:
        subprocess.call(['chmod', '-R', 'u+rwx', scratch])
        shutil.rmtree(scratch, ignore_errors=True)
    wall = time.time() - t0
    if not replay:
        ev = dict(property=prop, tier=tier, seed=seed, level=spec['level'],
                  coverage=dict(evaluations=total['evaluations'], distinct_nontrivial=len(total['distinct']), rule=spec['rule'], samples=total['samples'][:8] or ['none'],
                                observed=total['counters'], runs=total['runs'], build_s=round(build_s, 1)),
                  assumptions=spec.get('assumptions', []), wall_s=round(wall, 1), violations=len(violations))
        with open(os.path.join(OUT, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    for k in known:
        if not replay and k in known_hit:
            print('KNOWN-FINDING: property=%s %s' % (prop, k[3]))
    for variant, sig, report, case in violations[:3]:
        path = os.path.join(OUT, 'replay', '%s-%s-%d-%d.json' % (prop, variant, seed, case))
        with open(path, 'w') as f:
            json.dump(dict(property=prop, variant=variant, seed=seed, case=case, signature=sig, report=report), f, indent=1)
        print('\n'.join(report.splitlines()[:70]))
        print('VIOLATION property=%s replay=%s' % (prop, path))
    if violations:
        return 1
    if errors:
        print('CHECK ERROR\n' + errors[0], file=sys.stderr)
        return 2
    print('%s held: %d evaluations, %d distinct, %.1f s' % (prop, total['evaluations'], len(total['distinct']), wall))
    return 0


def main():
    args = sys.argv[1:]
    prop = args[0]
    tier = 'thorough' if '--thorough' in args else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    if '--seed' in args:
        seed = int(args[args.index('--seed') + 1])
    replay = None
    if '--replay' in args:
        with open(args[args.index('--replay') + 1]) as f:
            replay = json.load(f)
    sys.exit(run_property(prop, tier, seed, replay))


if __name__ == '__main__':
    main()
