#!/usr/bin/env python3
"""Decide one property by running the real code under monitors: check.py ID [--thorough]

Builds the lanes of the property (harness x compiler x standard x configuration x sanitizer) from /repo's working tree
in a scratch directory, runs them, collects what their monitors observed and reports the violations.

Exit 0: held on everything explored. Exit 1 and VIOLATION lines: broken. Exit 2: the check could not decide.
"""
import json
import os
import re
import resource
import shutil
import subprocess
import sys
import tempfile
import threading
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import lanes  # noqa: E402

REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(HERE, 'harness')
OUT = os.path.join(HERE, 'out')
KNOWN = os.path.join(HERE, 'known-findings.txt')

SAN = {
    'asan': ['-fsanitize=address,undefined', '-fno-sanitize-recover=all'],
    'ubsan': ['-fsanitize=undefined', '-fno-sanitize-recover=all'],
    'tsan': ['-fsanitize=thread'],
    'msan': ['-fsanitize=memory', '-fsanitize-memory-track-origins'],
    'none': [],
}
CC = {'gcc11': '/usr/bin/g++-11', 'gcc13': '/usr/bin/g++-13', 'clang': '/usr/bin/clang++-18'}
CFG = {
    'def': [],
    'le': ['-DUPD_PLATFORM_ENDIANESS=LITTLE', '-DUPD_PLATFORM_SIGNED_MODE=TWOS_COMPLEMENT'],
    'e': ['-DUPD_PLATFORM_ENDIANESS=LITTLE'],
    's': ['-DUPD_PLATFORM_SIGNED_MODE=TWOS_COMPLEMENT'],
}
ENV = {
    'ASAN_OPTIONS': 'abort_on_error=0:exitcode=99:detect_leaks=1:allocator_may_return_null=1',
    'UBSAN_OPTIONS': 'print_stacktrace=1:exitcode=99',
    'TSAN_OPTIONS': 'halt_on_error=1:exitcode=99',
    'MSAN_OPTIONS': 'exitcode=99',
    'LSAN_OPTIONS': 'exitcode=99',
}


def clean_env():
    keep = ('PATH', 'HOME', 'LANG', 'LC_ALL', 'TMPDIR')
    env = {k: v for k, v in os.environ.items() if k in keep}
    env.update(ENV)
    return env


def limits(cpu):
    def apply():
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

    return apply


class Result:
    def __init__(self, lane):
        self.lane = lane
        self.status = 'ok'  # ok, violated, build-failed, hang, error, skipped
        self.found = []  # (kind, detail, case)
        self.stats = None
        self.log = ''
        self.command = ''
        self.build_s = self.run_s = 0.0
        self.transcript = None
        self.end = ''


def build_command(lane, out):
    std = {'11': '-std=c++11', '17': '-std=c++17', '14': '-std=c++14', '20': '-std=c++20'}[lane.std]
    cmd = [CC[lane.cc], std, '-' + lane.opt, '-g1', '-w', '-fno-omit-frame-pointer', '-pthread']
    cmd += SAN[lane.san] + CFG[lane.cfg]
    if lane.cc == 'clang':
        cmd += ['-ferror-limit=3', '-fbracket-depth=2048']
    else:
        cmd += ['-fmax-errors=3']
    cmd += ['-ftemplate-depth=3000', '-D' + 'LANE="%s"' % lane.name]
    cmd += ['-D' + d for d in lane.defs]
    cmd += ['-I' + os.path.join(REPO, 'include'), '-I' + SRC]
    cmd += [os.path.join(SRC, s) for s in lane.src.split()]
    cmd += ['-o', out] + lane.libs
    return cmd


def run_process(cmd, cwd, cpu, wall, extra_env=None):
    """returns (exit code or None when it hung, stdout, stderr)"""
    env = clean_env()
    env.update(extra_env or {})
    p = subprocess.Popen(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL,
                         env=env, preexec_fn=limits(cpu), start_new_session=True)
    try:
        out, err = p.communicate(timeout=wall)
        code = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        out, err = p.communicate()
        code = None
    if code in (-24, -9):  # SIGXCPU
        code = None
    return code, out.decode('utf-8', 'replace'), err.decode('utf-8', 'replace')


def parse_output(res, code, out, err):
    for line in out.splitlines():
        if line.startswith('FOUND '):
            try:
                d = json.loads(line[6:])
                res.found.append((d['kind'], d['detail'], d.get('case', '')))
            except ValueError:
                pass
        elif line.startswith('STATS '):
            try:
                res.stats = json.loads(line[6:])
            except ValueError:
                pass
    res.log = (out[-6000:] + '\n--- stderr\n' + err[-12000:])
    if res.lane.valgrind:
        for m in re.finditer(r'==\d+== ((?:Conditional jump|Use of uninit|Syscall param)[^\n]*)((?:\n==\d+==    ?[^\n]+)*)', err):
            if 'ninitiali' not in m.group(1):
                continue
            at = re.findall(r'(?:at|by) 0x[0-9A-F]+: ([^\n]*)', m.group(2))
            lib = [f for f in at if 'upd::' in f]
            m2 = re.search(r'^CURRENT-CASE (.*)$', err, re.M)
            res.found.append(('uninitialized', m.group(1) + ' in ' + (lib or at or ['?'])[0][:300], m2.group(1) if m2 else ''))
            if len(res.found) > 8:
                break
        if code == 99 and not res.found:
            code = 0 if res.stats is not None else 99  # errors of another sort
    if code == 0 and not res.found:
        if res.stats is None:
            res.status = 'error'
        return
    if res.found:
        res.status = 'violated'
        return
    if code is None:
        res.status = 'hang'
        return
    if code == 4:  # the harness itself gave up
        res.status = 'error'
        return
    # a sanitizer report, a signal or an uncaught exception
    m = re.search(r'^CURRENT-CASE (.*)$', err, re.M)
    case = m.group(1) if m else ''
    kind, detail = 'crash', 'exit code %d' % code
    for pat, k in ((r'runtime error: (.*)', 'undefined-behaviour'),
                   (r'ERROR: AddressSanitizer:? (.*)', 'memory-error'),
                   (r'ERROR: LeakSanitizer: (.*)', 'leak'),
                   (r'WARNING: ThreadSanitizer: (.*)', 'data-race'),
                   (r'WARNING: MemorySanitizer: (.*)', 'uninitialized'),
                   (r'(terminate called.*)', 'uncaught-exception')):
        m = re.search(pat, err)
        if m:
            kind, detail = k, re.sub(r'0x[0-9a-f]+|\(pid=\d+\)', '', m.group(1)).strip()
            break
    frames = [f for f in re.findall(r'#\d+ 0x[0-9a-f]+ in (.*)', err) if '/include/upd/' in f or 'upd::' in f]
    if frames:
        m = re.search(r'(include/upd/\S+)', frames[0])
        if m:
            detail += ' at ' + re.sub(r':\d+$', '', m.group(1))
    res.found.append((kind, detail, case))
    res.status = 'violated'


def lane_run(lane, scratch, ctx):
    res = Result(lane)
    work = os.path.join(scratch, re.sub(r'\W', '_', lane.name))
    os.makedirs(work, exist_ok=True)
    t0 = time.time()
    if lane.runner:
        try:
            lane.runner(lane, work, res, ctx)
        except Exception as e:  # the machinery failed, not the code
            import traceback
            res.status = 'error'
            res.log = traceback.format_exc()
        res.run_s = time.time() - t0
        return res
    exe = os.path.join(work, 'run')
    cmd = build_command(lane, exe)
    res.command = ' '.join("'%s'" % c if re.search(r'[^\w./=+:,-]', c) else c for c in cmd)
    with ctx.slots:
        t0 = time.time()
        try:
            p = subprocess.run(cmd, cwd=work, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=clean_env(), timeout=600)
            code, text = p.returncode, p.stdout.decode('utf-8', 'replace')
        except subprocess.TimeoutExpired:
            code, text = None, 'compiler timed out'
        res.build_s = time.time() - t0
        if code != 0:
            res.status = 'build-failed'
            res.log = text[:12000]
            return res
        args = (['valgrind', '-q', '--error-exitcode=99', '--num-callers=30', '--leak-check=no', '--undef-value-errors=yes',
                 '--max-stackframe=100000000'] if lane.valgrind else []) + [exe, '--seed', str(ctx.seed * 1000 + lane.salt), '--scale', str(lane.scale), '--prop', ctx.prop]
        if ctx.tier == 'thorough':
            args.append('--thorough')
        args += lane.args
        res.command += '\n' + ' '.join(args)
        for attempt in (1, 2):
            t0 = time.time()
            code, out, err = run_process(args, work, lane.cpu * (20 if ctx.tier == 'thorough' else 1), lane.wall * (10 if ctx.tier == 'thorough' else 1))
            res.run_s = time.time() - t0
            res.found = []
            res.status = 'ok'
            parse_output(res, code, out, err)
            if res.status != 'hang':
                break
        res.end = 'no end' if code is None else 'exit code %d' % code
        res.transcript = [l[2:] for l in out.splitlines() if l.startswith('T ')]
    try:
        os.remove(exe)
    except OSError:
        pass
    return res


class Context:
    pass


def sanity(scratch):
    """Do the library's headers compile at all in this sandbox?"""
    src = os.path.join(scratch, 'sanity.cpp')
    with open(src, 'w') as f:
        f.write('#include <upd/buffered_dispatcher.hpp>\n#include <upd/keyring.hpp>\n#include <upd/tuple.hpp>\nint main(){}\n')
    p = subprocess.run([CC['gcc11'], '-std=c++17', '-w', '-fsyntax-only', '-I' + os.path.join(REPO, 'include'), src],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return p.returncode == 0


def load_known(prop):
    findings = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r'finding: property=(\S+) match=/(.*)/ (.*)', line.strip())
            if m and m.group(1) == prop:
                findings.append((re.compile(m.group(2)), m.group(3)))
    return findings


def main():
    prop = sys.argv[1]
    tier = 'thorough' if '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    only = [a[7:] for a in sys.argv if a.startswith('--lane=')]
    keep = '--keep' in sys.argv
    verbose = '-v' in sys.argv
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    t0 = time.time()
    spec = lanes.SPECS[prop]
    ctx = Context()
    ctx.seed, ctx.tier, ctx.prop, ctx.repo, ctx.here = seed, tier, prop, REPO, HERE
    ctx.run_process, ctx.clean_env, ctx.build_command, ctx.parse_output = run_process, clean_env, build_command, parse_output
    ctx.slots = threading.Semaphore(8)
    todo = [l for l in spec.lanes if tier == 'thorough' or not l.thorough_only]
    if only:
        todo = [l for l in todo if l.name in only]
    for i, l in enumerate(todo):
        l.salt = 0 if spec.same_seed else i
    scratch = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    try:
        with ThreadPoolExecutor(max_workers=16) as pool:
            results = list(pool.map(lambda l: lane_run(l, scratch, ctx), todo))
        broken, errors, skipped = [], [], []  # (lane result, kind, detail, case)
        for r in results:
            if r.status == 'violated':
                for k, d, c in r.found:
                    broken.append((r, k, d, c))
            elif r.status == 'hang':
                broken.append((r, 'hang', 'the run did not end within %d s of CPU time, twice' % r.lane.cpu, ''))
            elif r.status == 'build-failed':
                if r.lane.optional:
                    skipped.append(r.lane.name + ' (does not build)')
                elif sanity(scratch):
                    broken.append((r, 'build', 'a use of the public interface no longer compiles', r.log[:300]))
                else:
                    errors.append((r, 'headers do not compile'))
            elif r.status == 'error':
                errors.append((r, r.log[-1500:]))
            elif r.status == 'skipped':
                skipped.append(r.lane.name)
        extra = {}
        if spec.only:  # what is of another sort is judged by other properties
            others = [x for x in broken if x[1] not in spec.only and x[1] != 'build']
            broken = [x for x in broken if x not in others]
            if others:
                extra['not_judged_here'] = ['%s: %s: %s' % (r.lane.name, k, d[:200]) for r, k, d, _ in others][:20]
        if spec.compare:
            for k, d in spec.compare([r for r in results if r.status not in ('build-failed', 'error', 'skipped')], ctx, extra):
                broken.append((None, k, d, ''))
    finally:
        if keep:
            print('kept', scratch)
        else:
            shutil.rmtree(scratch, ignore_errors=True)

    # known findings
    known = load_known(prop)
    reported, hit = [], set()
    for r, k, d, c in broken:
        text = '%s: %s [%s]' % (k, d, c)
        for i, (pat, desc) in enumerate(known):
            if pat.search(text):
                hit.add(i)
                break
        else:
            reported.append((r, k, d, c))
    for i, (_, desc) in enumerate(known):
        print('KNOWN-FINDING: property=%s %s%s' % (prop, desc, '' if i in hit else ' (not met by this run)'))

    # evidence
    events, samples, evaluations, distinct = {}, [], 0, 0
    per_lane = {}
    for r in results:
        s = r.stats or {}
        evaluations += s.get('evaluations', 0)
        distinct = max(distinct, s.get('distinct', 0))
        for k, v in s.get('events', {}).items():
            events[k] = events.get(k, 0) + v
        for x in s.get('samples', [])[:3]:
            if len(samples) < 12 and x not in samples:
                samples.append(x)
        per_lane[r.lane.name] = {'status': r.status, 'evaluations': s.get('evaluations', 0),
                                 'distinct': s.get('distinct', 0), 'build_s': round(r.build_s, 1), 'run_s': round(r.run_s, 1)}
    evaluations += extra.pop('evaluations', 0)
    distinct += extra.pop('distinct', 0)
    coverage = {'evaluations': evaluations, 'distinct_nontrivial': distinct, 'rule': spec.rule,
                'samples': samples or ['none'], 'events': events, 'lanes': per_lane}
    if skipped:
        coverage['skipped_lanes'] = skipped
    coverage.update(extra)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    evidence = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': coverage,
                'assumptions': lanes.ASSUMPTIONS + spec.assumptions, 'wall_s': round(time.time() - t0, 1),
                'violations': len(reported)}
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1)

    if verbose or errors:
        for r in results:
            print('%-40s %-12s build %5.1fs run %5.1fs %s' % (r.lane.name, r.status, r.build_s, r.run_s, '' if r.status == 'ok' else ''))
    code = 0
    if reported:
        d = os.path.join(OUT, 'replay')
        os.makedirs(d, exist_ok=True)
        seen = {}
        for r, k, det, c in reported:
            key = k
            seen[key] = seen.get(key, 0) + 1
            if seen[key] > 3:
                continue
            path = os.path.join(d, '%s-%d-%d.txt' % (prop, seed, sum(seen.values())))
            with open(path, 'w') as f:
                f.write('property: %s\nkind: %s\nwhat: %s\ncase: %s\nlane: %s\nseed: %d tier: %s\n' % (
                    prop, k, det, c, r.lane.name if r else 'comparison', seed, tier))
                if r:
                    f.write('\nrebuild and run again with:\n%s\n\nor: VERIF_SEED=%d python3 check.py %s --lane=%s\n\n--- output\n%s\n' % (
                        r.command, seed, prop, r.lane.name, r.log))
            print('%s: %s [%s] (%s)' % (k, det, c, r.lane.name if r else 'comparison'))
            print('VIOLATION property=%s replay=%s' % (prop, path))
        code = 1
    elif errors:
        for r, why in errors:
            print('ERROR %s: %s' % (r.lane.name, why))
        code = 2
    elif evaluations == 0:
        print('ERROR nothing was observed')
        code = 2
    else:
        print('HELD property=%s evaluations=%d distinct=%d wall=%.1fs' % (prop, evaluations, distinct, time.time() - t0))
    sys.stdout.flush()
    return code


if __name__ == '__main__':
    sys.exit(main())
