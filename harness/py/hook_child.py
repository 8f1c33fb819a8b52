"""Runs in an interpreter of its own: carries out steps, and tells what was observed as JSON. Usage: hook_child.py STEPS.json RESULT.json"""
import importlib
import importlib.util
import json
import os
import sys
import types

steps = json.load(open(sys.argv[1]))
out = []
base = len(sys.meta_path)


def outcome(f):
    try:
        return {'ok': f()}
    except BaseException as e:
        return {'error': type(e).__name__, 'mro': [c.__name__ for c in type(e).__mro__], 'text': str(e)[:300], 'name': getattr(e, 'name', None)}


def look(m):
    """What can be told of an ordinary module"""
    spec = m.__spec__
    return {'name': m.__name__, 'file': getattr(m, '__file__', None), 'origin': spec and spec.origin, 'spec': spec and spec.name, 'parent': spec and spec.parent,
            'loader': type(m.__loader__).__name__, 'package': m.__package__, 'path': list(getattr(m, '__path__', [])),
            'dir': sorted(k for k in vars(m) if k not in ('__builtins__', '__cached__'))[:400],
            'const': {k: v for k, v in sorted(vars(m).items()) if isinstance(v, (int, str)) and not k.startswith('__')and k.islower()}}


def describe(name):
    m = importlib.import_module(name)
    again = importlib.import_module(name)
    third = __import__(name, fromlist=['x'])
    r = {'same': m is again and m is third and sys.modules[name] is m, 'type': type(m) is types.ModuleType}
    r['asked'] = {x: getattr(sys.modules[x], '__file__', None) for x in ('helper_mod', 'sched', 'wave', 'colorsys') if x in sys.modules}
    if '.' in name:
        parent, _, last = name.rpartition('.')
        r['attribute'] = getattr(sys.modules[parent], last, None) is m
    if hasattr(m, 'value'):
        r['value'] = m.value()
        r['name'] = m.__name__
    if hasattr(m, 'initialized'):
        r['inits'] = m.initialized()
    if hasattr(m, 'extra'):
        r['extra'] = m.extra()
    return r


def run(s):
    op = s[0]
    if op == 'import':
        return outcome(lambda: describe(s[1]))
    if op == 'look':
        return outcome(lambda: look(importlib.import_module(s[1])))
    if op == 'from':
        def f():
            env = {}
            exec('from %s import %s as x' % (s[1], s[2]), env)
            return env['x'].value()
        return outcome(f)
    if op == 'find':
        def f():
            spec = importlib.util.find_spec(s[1])
            return spec and [spec.name, spec.origin, type(spec.loader).__name__]
        return outcome(f)
    if op == 'reload':
        return outcome(lambda: look(importlib.reload(importlib.import_module(s[1]))))
    if op == 'unpadded':
        def f():
            import unpadded
            return hasattr(unpadded, 'PacketStatus')
        return outcome(f)
    if op == 'extra':
        import unpadded
        unpadded.set_extra_include_dirs(s[1])
    elif op == 'write':
        with open(s[1], 'w') as f:
            f.write(s[2])
        os.utime(s[1], (1.6e9, 1.6e9))
    elif op == 'path':
        sys.path.insert(0, s[1])
    elif op == 'append':
        sys.path.append(s[1])
    elif op == 'lost':  # the working directory disappears
        os.makedirs(s[1])
        os.chdir(s[1])
        os.rmdir(s[1])
        sys.path.insert(0, '')
    elif op == 'nobody':  # directories which cannot be searched are on the path
        os.makedirs(s[1])
        os.chmod(s[1], 0o700)
        sys.path.insert(0, s[1])
        try:
            os.setegid(65534)
            os.seteuid(65534)
        except OSError:
            return {'skipped': True}
    elif op == 'root':
        os.seteuid(0)
        os.setegid(0)
    return {}


for s in steps:
    out.append(run(s))
    sys.stdout.flush()
with open(sys.argv[2], 'w') as f:
    json.dump(out, f)
