"""Lanes which run the Python package and extension modules built against the headers."""
import os
import random
import re
import shutil
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PYSRC = os.path.join(HERE, 'harness', 'py')
PY = '/opt/vp/venv/bin/python'
_lock = threading.Lock()
sys.path.insert(0, PYSRC)
import gen_disp  # noqa: E402
import gen_keys  # noqa: E402


def sh(cmd):
    return subprocess.run(cmd, stdout=subprocess.PIPE, check=True).stdout.decode().split('\n')[0]


class Toolchain:
    def __init__(self):
        self.suffix = sh([PY, '-c', 'import sysconfig; print(sysconfig.get_config_var("EXT_SUFFIX"))'])
        self.includes = sh([PY, '-m', 'pybind11', '--includes']).split()


_tools = []


def tools():
    with _lock:
        if not _tools:
            _tools.append(Toolchain())
        return _tools[0]


SAN = {'none': [], 'asan': ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']}
CC = {'gcc11': '/usr/bin/g++-11', 'gcc13': '/usr/bin/g++-13', 'clang': '/usr/bin/clang++-18'}


class BuildFailed(Exception):
    pass


def compile_module(ctx, lane, src, out):
    cmd = [CC[lane.cc], '-std=c++17', '-' + lane.opt, '-g0' if 'wide' in lane.name else '-g1', '-w', '-fPIC', '-shared', '-fvisibility=hidden'] + SAN[lane.san]
    if lane.cfg == 'le':
        cmd += ['-DUPD_PLATFORM_ENDIANESS=LITTLE', '-DUPD_PLATFORM_SIGNED_MODE=TWOS_COMPLEMENT']
    cmd += ['-ftemplate-depth=3000'] + (['-fbracket-depth=2048', '-ferror-limit=3'] if lane.cc == 'clang' else ['-fmax-errors=3'])
    cmd += tools().includes + ['-I' + os.path.join(ctx.repo, 'include'), src, '-o', out + tools().suffix]
    with ctx.slots:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ctx.clean_env(), timeout=800)
    if p.returncode:
        raise BuildFailed(p.stdout.decode('utf-8', 'replace')[:12000])


def package(ctx, lane, where):
    """The package as it is installed: its Python files, its extension module and the headers"""
    dst = os.path.join(where, 'unpadded')
    src = os.path.join(ctx.repo, 'py', 'unpadded')
    os.makedirs(dst)
    for f in os.listdir(src):
        if f.endswith('.py'):
            shutil.copy(os.path.join(src, f), dst)
    shutil.copytree(os.path.join(ctx.repo, 'include'), os.path.join(dst, 'include'))
    compile_module(ctx, lane, os.path.join(src, '_details.cpp'), os.path.join(dst, '_details'))


def environment(lane, work):
    env = {'PYTHONPATH': work, 'HOME': work, 'CCACHE_DIR': os.path.join(work, 'ccache'), 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0',
           'TMPDIR': os.path.join(work, 'tmp'), 'PYTHONMALLOC': 'malloc' if lane.san == 'asan' else 'default'}
    os.makedirs(env['TMPDIR'], exist_ok=True)
    if lane.san == 'asan':
        env['LD_PRELOAD'] = '%s %s' % (sh([CC['gcc11'], '-print-file-name=libasan.so']), sh([CC['gcc11'], '-print-file-name=libstdc++.so']))
        env['ASAN_OPTIONS'] = 'detect_leaks=0:exitcode=99:allocator_may_return_null=1'
    return env


def run_worker(lane, work, res, ctx, script, extra):
    args = [PY, '-B', '-X', 'faulthandler', os.path.join(PYSRC, script), '--seed', str(ctx.seed * 1000 + lane.salt), '--scale', str(lane.scale), '--prop', ctx.prop,
            '--dir', work] + extra + (['--thorough'] if ctx.tier == 'thorough' else [])
    deep = ctx.tier == 'thorough'
    t0 = time.time()
    with ctx.slots:
        code, out, err = ctx.run_process(args, work, lane.cpu * (20 if deep else 1), lane.wall * (10 if deep else 1), environment(lane, work))
    res.run_s = time.time() - t0
    res.command = ' '.join(args)
    ctx.parse_output(res, code, out, err)
    if res.found and not res.found[0][2]:
        try:
            with open(os.path.join(work, 'current')) as f:
                text = f.read().strip()
            res.found = [(k, d, c or text) for k, d, c in res.found]
        except OSError:
            pass


def building(f):
    """A runner whose C++ code may not compile"""
    def runner(lane, work, res, ctx):
        t0 = time.time()
        try:
            f(lane, work, res, ctx)
        except BuildFailed as e:
            res.status = 'build-failed'
            res.log = str(e)
        res.build_s = time.time() - t0 - res.run_s
    return runner


def at_once(jobs):
    """Runs functions in threads, and raises what the first which fails raises"""
    errors = []

    def guard(j):
        try:
            j()
        except BaseException as e:
            errors.append(e)

    ts = [threading.Thread(target=guard, args=(j,)) for j in jobs]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errors:
        raise errors[0]


def modules(make, script):
    @building
    def runner(lane, work, res, ctx):
        parts, jobs = [], [lambda: package(ctx, lane, work)]
        for i, args in enumerate(lane.modules):
            name = 'mod_%s%d' % (lane.tag, i)
            seed = ctx.seed * 100000 + lane.salt * 100 + i
            src = os.path.join(work, name + '.cpp')
            with open(src, 'w') as f:
                f.write(make(random.Random(seed), name, *args).source())
            jobs.append(lambda s=src, n=name: compile_module(ctx, lane, s, os.path.join(work, n)))
            parts.append('%s:%d:%s' % (name, seed, ':'.join(map(str, args))))
        at_once(jobs)
        run_worker(lane, work, res, ctx, script, ['--part', ','.join(parts)])
    return runner


keys = modules(gen_keys.KeysModule, 'keys.py')
dispatchers = modules(gen_disp.DispModule, 'disp.py')
clients = modules(gen_keys.KeysModule, 'client.py')


@building
def hook(lane, work, res, ctx):
    package(ctx, lane, work)
    run_worker(lane, work, res, ctx, 'hook.py', ['--part', ','.join(lane.modules)])
