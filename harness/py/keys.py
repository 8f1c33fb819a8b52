"""C21: encode, decode and index of the keys exposed to Python, against the specification of the wire format"""
import importlib
import random
import sys

import mon
import wire
from gen_keys import KeysModule
from mon import case, ev, must


class Odd:
    pass


class Index:
    def __init__(self, v):
        self.v = v

    def __index__(self):
        if isinstance(self.v, Exception):
            raise self.v
        return self.v


class Stop(Exception):
    pass


def bad_value(r, t):
    """Something which a parameter of the type must refuse"""
    if t[0] == 'b':
        return r.choice(['x', '', [], [True], (), Odd(), b'x'])
    if t[0] == 'i':
        lo, hi = wire.bounds(t)
        return r.choice([lo - 1, hi + 1, lo - r.randint(1, 1 << 70), hi + r.randint(1, 1 << 70), 1 << 64, -(1 << 63) - 1, 1 << 200, -(1 << 200), hi + 256, hi + (1 << 32),
                         'x', b'a', '5', None, 1.0, 0.5, float('nan'), float('inf'), [1], (), {}, 1j, Odd(), object, hi * 2 + 1 + 1, hi * 2 + 2 + r.randint(0, 3)])
    if t[0] == 'a':
        good = [0] * t[2]
        if t[1][0] != 'i':
            good = None
        x = r.random()
        if x < 0.3 or good is None:
            return r.choice([None, 5, Odd(), 1.5, {1}, {}, iter([])])
        if x < 0.6:
            return good + [0] * r.randint(1, 3) if r.random() < 0.5 else good[:-1]
        bad = list(good)
        bad[r.randrange(len(bad))] = bad_value(r, t[1])
        return bad
    return r.choice([None, 5, 'x', Odd(), ()])


def forms(r, b):
    """Payloads which hold the same bytes"""
    return r.choice([lambda: b, lambda: bytearray(b), lambda: memoryview(b), lambda: list(b), lambda: tuple(b), lambda: iter(b), lambda: iter(list(b)),
                     lambda: (x for x in b), lambda: range(b[0], b[0] + 1) if len(b) == 1 else b])()


def attempt(f):
    """(value, None) or (None, exception)"""
    try:
        return f(), None
    except Exception as e:
        return None, e


def check(r, mod, desc, i):
    fmt, fns = desc.rings[i]
    f = r.choice(fns)
    key = getattr(mod, f.name)
    what = '%s %s %s' % (desc.name, fmt, f.signature())
    mon.Stats.evaluations += 1
    prefix = f.index.to_bytes(desc.index_bytes(i), 'little' if fmt.endian == 'LITTLE' else 'big')
    x = r.random()
    if x < 0.4:
        values = [wire.gen_value(r, t, fmt) for t in f.args]
        case('%s .encode%r' % (what, tuple(values)))
        args = [wire.to_python(v, t, mod) for v, t in zip(values, f.args)]
        for j, t in enumerate(f.args):
            y = r.random()
            if t[0] == 'a' and y < 0.3:
                args[j] = tuple(args[j])
        if r.random() < 0.1:
            key = type(key)(key) if False else key
        got, e = attempt(lambda: key.encode(*args))
        must(e is None, 'encode', lambda: 'valid arguments were refused: %r' % e)
        want = prefix + b''.join(wire.encode(v, t, fmt) for v, t in zip(values, f.args))
        must(type(got) is bytes and got == want, 'encode', lambda: 'gave %r instead of %r' % (got, want))
        ev('requests encoded')
        mon.distinct('e', f.name, want)
        mon.sample('%s%r -> %s' % (f.signature(), tuple(values), want.hex()))
        must(key.index() == f.index and type(key.index()) is int, 'index', lambda: 'index() is %r instead of %d' % (key.index(), f.index))
    elif x < 0.7:
        n = wire.size(f.ret)
        b = bytes(r.choice([0, 1, 0x7f, 0x80, 0xff, r.randrange(256)]) for _ in range(n))
        extra = bytes(r.randrange(256) for _ in range(r.choice([0, 0, 1, 7])))
        payload = forms(r, b + extra) if n + len(extra) else b''
        case('%s .decode(%s %s)' % (what, type(payload).__name__, (b + extra).hex()))
        got, e = attempt(lambda: key.decode(payload))
        must(e is None, 'decode', lambda: 'a complete payload was refused: %r' % e)
        want = wire.decode(b, f.ret, fmt)
        got = wire.from_python(got, f.ret)
        must(wire.same(got, want, f.ret), 'decode', lambda: 'gave %r instead of %r' % (got, want))
        ev('responses decoded')
        mon.distinct('d', f.name, b)
    elif x < 0.85:
        # what must be refused
        values = [wire.gen_value(r, t, fmt) for t in f.args]
        args = [wire.to_python(v, t, mod) for v, t in zip(values, f.args)]
        kw = {}
        y = r.random()
        if y < 0.7 and args:
            j = r.randrange(len(args))
            args[j] = bad_value(r, f.args[j])
            ev('calls with an argument of the wrong type or range')
        elif y < 0.85:
            args = args[:-1] if args and r.random() < 0.5 else args + [r.choice([0, None, b''])]
            ev('calls with the wrong number of arguments')
        else:
            kw = {r.choice(['x', 'self', 'arg0', 'k']): 1}
            ev('calls with unexpected keywords')
        case('%s .encode(%r, %r)' % (what, args, kw))
        got, e = attempt(lambda: key.encode(*args, **kw))
        must(e is not None, 'accepted', lambda: 'arguments which cannot be represented gave %r' % got)
        mon.distinct('r', f.name, type(e).__name__, y < 0.7)
    elif x < 0.95:
        n = wire.size(f.ret)
        if n == 0:
            return
        k = r.randrange(n) if n > 1 and r.random() < 0.5 else n - 1
        b = bytes(r.randrange(256) for _ in range(k))
        payload = b
        y = r.random()
        if y < 0.4:
            payload = forms(r, b) if k else b
            ev('payloads too short')
        elif y < 0.6:
            payload = list(b) + [r.choice([256, -1, 'a', None, 1.5, 1 << 70, b'a', Odd()])] + [0] * n
            ev('payloads with something which is not a byte')
        elif y < 0.75:
            def broken():
                yield from b
                raise Stop()
            payload = broken()
            ev('payloads which raise')
        else:
            payload = r.choice([None, 5, Odd(), 'a' * (2 * n), ['a'] * n, 1.5])
            ev('payloads which are not bytes')
        case('%s .decode(%r)' % (what, payload if not hasattr(payload, '__next__') else ('generator', b)))
        got, e = attempt(lambda: key.decode(payload))
        must(e is not None, 'accepted', lambda: 'a payload which cannot be decoded gave %r' % (got,))
        if 0.6 <= y < 0.75:
            must(type(e) is Stop, 'exception', lambda: 'the exception of the payload became %r' % e)
        mon.distinct('s', f.name, k, type(e).__name__)
    else:
        # integers of other types are either refused or worth what they are
        values = [wire.gen_value(r, t, fmt) for t in f.args]
        args = [wire.to_python(v, t, mod) for v, t in zip(values, f.args)]
        for j, t in enumerate(f.args):
            if t[0] == 'i':
                if r.random() < 0.3:
                    values[j] = r.choice([0, 1])
                    args[j] = bool(values[j])
                else:
                    args[j] = Index(values[j]) if r.random() < 0.8 else Index(Stop())
        case('%s .encode(%r) through __index__' % (what, values))
        got, e = attempt(lambda: key.encode(*args))
        want = prefix + b''.join(wire.encode(v, t, fmt) for v, t in zip(values, f.args))
        must(e is not None or got == want, 'encode', lambda: 'gave %r instead of %r' % (got, want))
        ev('calls with other integers')


def main():
    sys.path.insert(0, mon.opt.dir)
    r = mon.rng(1)
    mods = []
    for spec in mon.opt.part.split(','):
        name, seed, count, many = spec.split(':')
        desc = KeysModule(random.Random(int(seed)), name, int(count), int(many))
        mods.append((name, desc))
    loaded = []
    import unpadded  # noqa: F401  (the package exposes what the modules need)
    for name, desc in mods:
        case('import ' + name)
        try:
            mod = importlib.import_module(name)
        except ImportError as e:
            mon.violation('import', 'a module exposing keyrings cannot be imported: %s' % e)
            continue
        for i, (fmt, fns) in enumerate(desc.rings):
            for f in fns:
                if not hasattr(mod, f.name):
                    mon.violation('import', 'the key of %s is not exposed' % f.signature())
                    return mon.finish()
        loaded.append((mod, desc))
        ev('extension modules')
        ev('keys', sum(len(x[1]) for x in desc.rings))
    for _ in range(int(60000 * mon.opt.scale)):
        mod, desc = r.choice(loaded)
        try:
            check(r, mod, desc, r.randrange(len(desc.rings)))
        except mon.Abandon:
            pass
    mon.finish()


main()
