#!/usr/bin/env python3
"""Development aid: plants small changes one at a time in scratch copies of the repository and reports which of those that
build and pass the existing tests the checks do not notice.

    mutate.py survivors OUT.jsonl [FILE...]     changes that build and pass the stable tests
    mutate.py checks SURVIVORS.jsonl OUT.jsonl  which check notices each of them (VERIF_SCALE applies)

No check uses it, and nothing here touches /repo: copies live under /tmp/mutants.
"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
from threading import Lock, local

REPO, HERE = '/repo', os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = '/tmp/mutants'
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
ENV = dict(os.environ, PATH='/opt/veriftools/go1.27.3/bin:' + os.environ['PATH'], GOTOOLCHAIN='local', GOFLAGS='-mod=mod', GOPROXY='off', GOSUMDB='off', GOWORK='off')
CHECKS = {
    'pkg/cli/cli.go': 'C13 C12', 'pkg/cli/file_watcher.go': 'C12 C13', 'pkg/cli/read_server_config.go': 'C13 C12', 'pkg/cli/watch_server_config.go': 'C12 C13',
    'pkg/pg/conn.go': 'C16 C14 C15 C01 C19', 'pkg/pg/dsn.go': 'C18', 'pkg/pg/read_buffer.go': 'C17 C14 C15', 'pkg/pg/write_buffer.go': 'C17 C14',
    'pkg/pg/standard_frame.go': 'C16 C15 C14', 'pkg/pg/startup_frame.go': 'C16 C15 C14 C04', 'pkg/pg/startup_message.go': 'C14 C15 C03 C04',
    'pkg/pgmeta/inspector.go': 'C19', 'pkg/server/event.go': 'C20', 'pkg/server/config_distributor.go': 'C10 C11',
    'pkg/server/server.go': 'C08 C07 C09 C05 C02', 'pkg/server/session.go': 'C01 C05 C04 C03 C06 C22 C09 C07 C21 C02', 'pkg/server/run.go': 'C13', 'main.go': 'C13',
}
lock, tls = Lock(), local()


def workdir():
    if not hasattr(tls, 'dir'):
        os.makedirs(BASE, exist_ok=True)
        tls.dir = tempfile.mkdtemp(dir=BASE)
        shutil.rmtree(tls.dir)
        shutil.copytree(REPO, tls.dir, ignore=shutil.ignore_patterns('.git', 'build'))
    return tls.dir


def plant(d, m):
    b = open(os.path.join(REPO, m['file']), 'rb').read()
    open(os.path.join(d, m['file']), 'wb').write(b[:m['start']] + m['to'].encode() + b[m['end']:])


def restore(d, m):
    shutil.copyfile(os.path.join(REPO, m['file']), os.path.join(d, m['file']))


def survives(m):
    d = workdir()
    plant(d, m)
    try:
        if subprocess.run(['go', 'build', './...'], cwd=d, env=ENV, capture_output=True).returncode:
            return 'does not build'
        pkgs = ['./' + os.path.dirname(m['file'])]
        if 'pkg/pg/' in m['file'] or 'pkg/server/' in m['file']:
            pkgs = ['./pkg/pg', './pkg/server', './pkg/cli']
        if 'pgmeta' in m['file'] or m['file'] == 'main.go':
            return 'survives'
        try:
            out = subprocess.run(['go', 'test', '-json', '-vet=off', '-count=1', '-timeout', '20s'] + pkgs, cwd=d, env=ENV, capture_output=True, timeout=60).stdout
        except subprocess.TimeoutExpired:
            return 'killed by the tests'
        passed, wanted = set(), {t for t in STABLE if any('/' + p[2:] + '/' in t for p in pkgs)}
        for l in out.splitlines():
            try:
                e = json.loads(l)
            except ValueError:
                continue
            if e.get('Action') == 'pass' and e.get('Test'):
                passed.add(e['Package'] + '/' + e['Test'])
        return 'survives' if wanted <= passed else 'killed by the tests'
    finally:
        restore(d, m)


def noticed(m):
    d = workdir()
    plant(d, m)
    ids = CHECKS.get(m['file'], 'C14 C15').split()
    m['results'] = {}
    try:
        for i in ids:
            r = subprocess.run([os.path.join(HERE, 'run.sh'), i], env=dict(ENV, VERIF_REPO=d), capture_output=True, text=True)
            v = [l for l in r.stdout.splitlines() if l.strip()]
            m['results'][i] = r.returncode
            if r.returncode:
                m['tail'] = '\n'.join(v[-6:])[-600:] if r.returncode == 1 else (r.stdout + r.stderr)[-600:]
            if r.returncode == 1:
                m['by'] = i
                break
        return m
    finally:
        restore(d, m)


def main():
    if sys.argv[1] == 'survivors':
        files = sys.argv[3:] or sorted(f for f in subprocess.run(['git', 'ls-files', '*.go'], cwd=REPO, capture_output=True, text=True).stdout.split() if not f.endswith('_test.go'))
        subprocess.run(['go', 'build', '-o', BASE + '.bin', './cmd/mutate'], cwd=HERE + '/harness', env=ENV, check=True)
        ms = []
        for f in files:
            for l in subprocess.run([BASE + '.bin', os.path.join(REPO, f)], capture_output=True, text=True).stdout.splitlines():
                ms.append(dict(json.loads(l), file=f))
        count = {}
        with ThreadPoolExecutor(int(os.environ.get('JOBS', '6'))) as ex, open(sys.argv[2], 'w') as out:
            for m, r in zip(ms, ex.map(survives, ms)):
                count[r] = count.get(r, 0) + 1
                if r == 'survives':
                    out.write(json.dumps(m) + '\n')
                    out.flush()
        print(count)
    else:
        ms = [json.loads(l) for l in open(sys.argv[2])]
        with ThreadPoolExecutor(int(os.environ.get('JOBS', '2'))) as ex, open(sys.argv[3], 'w') as out:
            for m in ex.map(noticed, ms):
                out.write(json.dumps(m) + '\n')
                out.flush()
    shutil.rmtree(BASE, ignore_errors=True)


main()
