#!/usr/bin/env python3
"""Runs one property check: check.py ID [quick|thorough] | --setup | ID --replay FILE.

Builds the harness package verif/<id> against /repo's working tree, runs it in
a scratch directory in several shards (seeds derived from VERIF_SEED), writes
evidence/<ID>.json and prints the verdict.  Exit: 0 held, 1 violated (with a
VIOLATION line), 2 the check itself failed."""
import glob, json, os, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
GOROOT_BIN = '/opt/veriftools/go1.27.3/bin'
ALL = ['C%02d' % i for i in range(1, 26)]
# Variants: (suffix, race?, extra environment).  Default: one plain binary.
RACE = {'C12', 'C13', 'C14', 'C21', 'C22', 'C23'}
SHARDS = {'quick': 4, 'thorough': 8}
LIMIT = {'quick': 600, 'thorough': 3000}     # seconds for the run
RSS_LIMIT = 3 << 30
ASSUME = [
    'Go 1.27.3 compiler, runtime, race detector and standard library behave as documented',
    'linux/amd64 (int and uint are 64 bits)',
    'the generators of the harness reach the inputs that matter; nothing is claimed beyond the cases run',
]


def env(seed, tier):
    e = {k: v for k, v in os.environ.items() if not k.startswith(('GO', 'VERIF_'))}
    e.update(PATH=GOROOT_BIN + ':/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
             HOME=e.get('HOME', '/root'), GOTOOLCHAIN='local', GO111MODULE='off', GOPROXY='off',
             GOFLAGS='', GOWORK='off', GOENV='off', GOPATH=os.path.join(HERE, 'gopath'),
             GOCACHE=os.path.join(HERE, '.cache', 'gocache'), TZ='America/New_York', CGO_ENABLED='1',
             VERIF_SEED=str(seed), VERIF_TIER=tier)
    if 'VERIF_SCALE' in os.environ:
        e['VERIF_SCALE'] = os.environ['VERIF_SCALE']
    return e


def link():
    d = os.path.join(HERE, 'gopath/src/github.com/Symantec')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, 'tricorder')
    if not (os.path.islink(p) and os.readlink(p) == '/repo'):
        if os.path.lexists(p):
            os.remove(p)
        os.symlink('/repo', p)


def build(pkg, out, race):
    link()
    cmd = ['go', 'test', '-c', '-vet=off', '-o', out]
    if race:
        cmd.append('-race')
    cmd.append('verif/' + pkg)
    r = subprocess.run(cmd, env=env(1, 'quick'), cwd=os.path.join(HERE, 'gopath/src/verif', pkg),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0 or not os.path.exists(out):
        print(r.stdout)
        print('check: build of harness %s failed' % pkg)
        sys.exit(2)


def rss(pid):
    try:
        with open('/proc/%d/statm' % pid) as f:
            return int(f.read().split()[1]) * 4096
    except Exception:
        return 0


def run(jobs, limit):
    """jobs: list of dict(cmd, cwd, env, log).  Adds rc and why."""
    for j in jobs:
        j['f'] = open(j['log'], 'w')
        j['p'] = subprocess.Popen(j['cmd'], cwd=j['cwd'], env=j['env'], stdout=j['f'],
                                  stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, start_new_session=True)
        j['why'] = ''
    end = time.time() + limit
    live = list(jobs)
    while live:
        for j in list(live):
            rc = j['p'].poll()
            if rc is None:
                if rss(j['p'].pid) > RSS_LIMIT:
                    j['why'] = 'memory'
                elif time.time() > end:
                    j['why'] = 'time'
                else:
                    continue
                try:
                    os.killpg(j['p'].pid, signal.SIGKILL)
                except OSError:
                    pass
                rc = j['p'].wait()
            j['rc'] = rc
            j['f'].close()
            try:
                os.killpg(j['p'].pid, signal.SIGKILL)
            except OSError:
                pass
            live.remove(j)
        time.sleep(0.02)


BROKEN = ('HARNESS-ERROR', 'panic: test timed out', '[rapid] only generated', 'cannot allocate memory',
          'out of memory', 'no space left on device', 'too many open files',
          'failed to create new OS thread', 'resource temporarily unavailable')


def classify(j):
    with open(j['log'], errors='replace') as f:
        # tricorder logs the faults injected
        text = ''.join(l for l in f if 'Error in template: ' not in l)
    if j['rc'] == 0:
        return 'ok', text
    if j['why'] == 'memory':
        return 'violation', text + '\n(memory use of the case exceeded %d bytes)\n' % RSS_LIMIT
    if j['why'] == 'time':
        return 'error', text + '\n(ran out of time)\n'
    if any(b in text for b in BROKEN):
        return 'error', text
    if re.search(r'^\s*--- FAIL|^panic: |^fatal error: |WARNING: DATA RACE|VERIF-HANG|^SIG[A-Z]+:|unexpected fault', text, re.M):
        return 'violation', text
    return 'error', text


def replay_file(pid, tier, seed, j, text):
    d = os.path.join(HERE, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s-seed%d-%s.txt' % (pid, tier, seed, j['name']))
    fails = []
    for root, _, files in os.walk(j['cwd']):
        for fn in files:
            if fn.endswith('.fail'):
                with open(os.path.join(root, fn), errors='replace') as f:
                    fails.append((os.path.basename(root), f.read()))
    with open(path, 'w') as f:
        f.write('# property=%s variant=%s\n' % (pid, j['variant']))
        f.write('# env VERIF_SEED=%s VERIF_TIER=%s\n' % (j['env']['VERIF_SEED'], tier))
        f.write('# replay: python3 check.py %s --replay %s\n' % (pid, path))
        f.write('==== output (shrunk case at the end of each failure)\n')
        f.write(text if len(text) < 400000 else text[:200000] + '\n...\n' + text[-200000:])
        for test, body in fails[:4]:
            f.write('\n==== rapid fail file of %s\n%s' % (test, body))
    return path


def variants(pid):
    v = [('plain', False)]
    if pid in RACE:
        v.append(('race', True))
    return v


def check(pid, tier):
    t0 = time.time()
    try:
        seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    except ValueError:
        seed = 1
    pkg = pid.lower()
    for old in glob.glob(os.path.join(HERE, 'replays', '%s-%s-seed%d-*' % (pid, tier, seed))):
        os.remove(old)
    tmp = tempfile.mkdtemp(prefix='verif-%s-' % pkg)
    try:
        jobs = []
        vs = variants(pid)
        n = SHARDS[tier]
        for name, race in vs:
            b = os.path.join(tmp, 'bin-' + name)
            build(pkg, b, race)
            for k in range(n // len(vs)):
                cwd = os.path.join(tmp, '%s%d' % (name, k))
                os.makedirs(cwd)
                e = env(seed * 64 + k + (32 if race else 0), tier)
                e.update(VERIF_STATS=os.path.join(cwd, 'stats.json'), VERIF_SHARD=str(k),
                         VERIF_RACE='1' if race else '', TMPDIR=cwd,
                         GORACE='halt_on_error=1 exitcode=66')
                jobs.append(dict(name='%s%d' % (name, k), variant=name, cwd=cwd, env=e, log=os.path.join(cwd, 'log'),
                                 cmd=[b, '-test.timeout=%ds' % (LIMIT[tier] + 60), '-test.v=false', '-test.failfast']))
        t1 = time.time()
        run(jobs, LIMIT[tier])
        cov = dict(evaluations=0, distinct_nontrivial=0, rule='', samples=[])
        hashes, labels, known, files, broken = set(), {}, set(), [], []
        for j in jobs:
            verdict, text = classify(j)
            if verdict == 'violation':
                files.append(replay_file(pid, tier, seed, j, text))
            elif verdict == 'error':
                broken.append((j['name'], j['rc'], text))
            try:
                with open(os.path.join(j['cwd'], 'stats.json')) as f:
                    s = json.load(f)
            except Exception:
                if verdict == 'ok':
                    broken.append((j['name'], j['rc'], 'no statistics written\n' + text))
                continue
            cov['evaluations'] += s['evaluations']
            cov['rule'] = s['rule']
            cov['samples'] += (s['samples'] or [])[:3]
            known |= set(s['known'] or [])
            for k, v in s['labels'].items():
                labels[k] = labels.get(k, 0) + v
            with open(os.path.join(j['cwd'], 'stats.json.h'), 'rb') as f:
                b = f.read()
            hashes.update(b[i:i + 8] for i in range(0, len(b), 8))
        cov['distinct_nontrivial'] = len(hashes)
        cov['samples'] = cov['samples'][:10]
        cov['labels'] = dict(sorted(labels.items()))
        cov['shards'] = [j['name'] for j in jobs]
        cov['build_s'] = round(t1 - t0, 1)
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
            json.dump(dict(property=pid, tier=tier, seed=seed, level=LEVEL.get(pid, 'exploration'), coverage=cov,
                           assumptions=ASSUME, wall_s=round(time.time() - t0, 2), violations=len(files)), f, indent=1)
        for k in sorted(known):
            print('KNOWN-FINDING: property=%s %s' % (pid, k))
        if files:
            with open(files[0], errors='replace') as f:
                body = f.read()
            print(body[:6000])
            print('VIOLATION property=%s replay=%s' % (pid, files[0]))
            return 1
        if broken:
            name, rc, text = broken[0]
            print(text[-6000:])
            print('check: shard %s ended with %s, no verdict' % (name, rc))
            return 2
        if cov['evaluations'] == 0 or cov['distinct_nontrivial'] == 0:
            print('check: nothing was explored')
            return 2
        print('%s %s seed=%d: held on %d cases (%d distinct non-trivial), %.1fs' % (
            pid, tier, seed, cov['evaluations'], cov['distinct_nontrivial'], time.time() - t0))
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def replay(pid, path):
    with open(path, errors='replace') as f:
        text = f.read()
    race = 'variant=race' in text.split('\n', 1)[0]
    m = re.search(r'VERIF_SEED=(\d+) VERIF_TIER=(\w+)', text)
    tmp = tempfile.mkdtemp(prefix='verif-replay-')
    try:
        b = os.path.join(tmp, 'bin')
        build(pid.lower(), b, race)
        e = env(m.group(1), m.group(2))
        e.update(TMPDIR=tmp, VERIF_RACE='1' if race else '', GORACE='halt_on_error=1 exitcode=66')
        parts = re.split(r'\n==== rapid fail file of (\S+)\n', text)
        if len(parts) >= 3:
            fail = os.path.join(tmp, 'case.fail')
            with open(fail, 'w') as f:
                f.write(parts[2])
            cmd = [b, '-test.v', '-test.run=^%s$' % parts[1], '-rapid.failfile=' + fail]
        else:
            cmd = [b, '-test.v']
        return subprocess.run(cmd, cwd=tmp, env=e).returncode
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


LEVEL = {'C15': 'fault_enumeration'}


def setup():
    link()
    tmp = tempfile.mkdtemp(prefix='verif-setup-')
    try:
        for pid in ALL:
            if os.path.isdir(os.path.join(HERE, 'gopath/src/verif', pid.lower())):
                for _, race in variants(pid):
                    build(pid.lower(), os.path.join(tmp, 'bin'), race)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    a = sys.argv[1:]
    if a == ['--setup']:
        setup()
        return 0
    if len(a) == 3 and a[1] == '--replay':
        return replay(a[0], os.path.abspath(a[2]))
    if not a or a[0] not in ALL:
        print(__doc__)
        return 2
    tier = a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in SHARDS:
        print(__doc__)
        return 2
    return check(a[0], tier)


if __name__ == '__main__':
    sys.exit(main())
