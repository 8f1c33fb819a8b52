#!/usr/bin/env python3
"""Development tool: plants bugs and tells which of them count and are caught.

plant.py BATCH.py [ID...]   BATCH.py defines BUGS, a list of dict(id, property, needs, breaks, edits=[(file, old, new)], demo=C++ text
                            (or None when demo_sh is given), flags='', files={name: text}, demo_sh=text)
plant.py --again [ID...]    runs what is in /verif/seeded again (checks only), --props=C01,C02 with other checks

Everything happens in copies of /repo below /tmp/plant, mounted over /repo in a namespace of their own.
"""
import json
import os
import queue
import shutil
import subprocess
import sys
import threading

SEEDED = '/verif/seeded'
BASE = '/tmp/plant'
WORKERS = int(os.environ.get('WORKERS', '2'))

DEMO = '''#!/bin/bash
# Exit 0 when the library behaves, with cwd /repo
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
g++-11 -std=c++17 -w %s -I include "$here/demo.cpp" -o "$tmp/demo" -pthread || exit 2
timeout 60 "$tmp/demo"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


def inside(repo, script):
    """runs a script with the copy in place of /repo"""
    return sh(['unshare', '-Urm', 'bash', '-c', 'mount --bind %s /repo && cd /repo && %s' % (repo, script)])


def write_files(bug):
    d = os.path.join(SEEDED, bug['id'])
    os.makedirs(d, exist_ok=True)
    for name, text in bug.get('files', {}).items():
        open(os.path.join(d, name), 'w').write(text)
    if bug.get('demo'):
        open(os.path.join(d, 'demo.cpp'), 'w').write(bug['demo'])
    open(os.path.join(d, 'demo.sh'), 'w').write(bug.get('demo_sh') or DEMO % bug.get('flags', ''))
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    json.dump({'property': bug['property'], 'needs': bug['needs'], 'what_it_breaks': bug['breaks']},
              open(os.path.join(d, 'meta.json'), 'w'), indent=1)


def handle(bug, repo, checks_only, props):
    i = bug['id']
    log = open(os.path.join(BASE, i + '.log'), 'w')
    sh(['git', '-C', repo, 'checkout', '-q', '--', '.'])
    d = os.path.join(SEEDED, i)
    if not checks_only:
        write_files(bug)
        r = inside(repo, 'bash %s/demo.sh' % d)
        log.write('--- demo on the unchanged tree: %d\n%s\n' % (r.returncode, r.stdout))
        if r.returncode:
            return 'NO: demo fails on the unchanged tree (%d): %s' % (r.returncode, r.stdout[-300:])
        for f, old, new in bug['edits']:
            p = os.path.join(repo, f)
            t = open(p).read()
            if t.count(old) != 1:
                return 'NO: %d matches in %s of %r' % (t.count(old), f, old[:60])
            open(p, 'w').write(t.replace(old, new))
        open(os.path.join(d, 'patch.diff'), 'w').write(sh(['git', '-C', repo, 'diff']).stdout)
        r = inside(repo, 'bash %s/demo.sh' % d)
        log.write('--- demo with the change: %d\n%s\n' % (r.returncode, r.stdout))
        if r.returncode == 0:
            return 'NO: demo passes with the change'
        demo = r.stdout.strip().splitlines()[-1:] or ['exit %d' % r.returncode]
        r = inside(repo, 'bash /opt/vp/test.sh %s/%s.json' % (BASE, i))
        log.write('--- tests\n%s\n' % r.stdout[-3000:])
        res = json.load(open('%s/%s.json' % (BASE, i)))
        base = json.load(open('/opt/vp/BASELINE.json'))
        stable = base if isinstance(base, list) else base.get('passed') or base.get('stable') or base.get('tests')
        bad = [t for t in stable if t not in set(res['passed'])]
        if bad:
            return 'NO: %d tests fail: %s' % (len(bad), bad[:3])
    else:
        r = sh(['git', '-C', repo, 'apply', os.path.join(d, 'patch.diff')])
        if r.returncode:
            return 'NO: the patch does not apply'
        demo = ['']
    out = []
    for p in props or [bug['property']]:
        r = inside(repo, 'cd /verif && python3 check.py %s' % p)
        log.write('--- check %s: %d\n%s\n' % (p, r.returncode, r.stdout[-3000:]))
        caught = r.returncode == 1 and 'VIOLATION property=%s' % p in r.stdout
        first = [l for l in r.stdout.splitlines() if not l.startswith('VIOLATION')]
        out.append('%s %s [%s]' % (p, 'CAUGHT' if caught else 'MISSED(%d)' % r.returncode, (first or [''])[0][:150]))
    return 'demo: %s | %s' % (demo[0][:80], ' '.join(out))


def main():
    os.makedirs(BASE, exist_ok=True)
    args = sys.argv[1:]
    again = '--again' in args
    props = [p for a in args if a.startswith('--props=') for p in a[8:].split(',')]
    args = [a for a in args if not a.startswith('--')]
    if again:
        bugs = [dict(json.load(open(os.path.join(SEEDED, i, 'meta.json'))), id=i) for i in sorted(args or os.listdir(SEEDED))]
    else:
        ns = {}
        exec(compile(open(args[0]).read(), args[0], 'exec'), ns)
        bugs = [b for b in ns['BUGS'] if len(args) == 1 or b['id'] in args[1:]]
    q = queue.Queue()
    for b in bugs:
        q.put(b)
    lock = threading.Lock()

    def work(k):
        top = '%s/%d.w%d' % (BASE, os.getpid(), k)
        repo = top + '/repo'
        shutil.rmtree(top, ignore_errors=True)
        os.makedirs(top)
        subprocess.run(['cp', '-a', '/repo', top], check=True)
        while True:
            try:
                b = q.get_nowait()
            except queue.Empty:
                break
            try:
                r = handle(b, repo, again, props)
            except Exception as e:
                r = 'ERROR %r' % e
            if r.startswith('NO') and not again:
                shutil.rmtree(os.path.join(SEEDED, b['id']), ignore_errors=True)
            with lock:
                print('%-28s %s' % (b['id'], r), flush=True)
        shutil.rmtree(top, ignore_errors=True)

    ts = [threading.Thread(target=work, args=(k,)) for k in range(min(WORKERS, len(bugs)))]
    [t.start() for t in ts]
    [t.join() for t in ts]


main()
