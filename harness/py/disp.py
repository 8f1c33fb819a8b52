"""C22: dispatchers exposed to Python, followed operation by operation by an executable specification"""
import collections
import functools
import gc
import importlib
import random
import sys
import threading
import time
import weakref

import mon
import wire
from gen_disp import DispModule
from mon import case, ev, must

TL = threading.local()
MONITORS = weakref.WeakValueDictionary()  # callbacks know their monitor by its number only: they must not keep anything alive


class CallbackError(Exception):
    pass


class StreamError(Exception):
    pass


class Odd:
    pass


def bad_result(r, t):
    if t[0] == 'b':
        return r.choice(['x', [], (), Odd(), b'x'])
    if t[0] == 'i':
        lo, hi = wire.bounds(t)
        return r.choice([lo - 1, hi + 1, 1 << 70, -(1 << 70), 'x', None, 1.5, [1], Odd()])
    if t[0] == 'a':
        return r.choice([None, 5, [0] * (t[2] + 1), [0] * (t[2] - 1), Odd(), ['x'] * t[2]])
    return r.choice([None, 5, 'x', Odd()])


class Model:
    """Specification of a double buffered dispatcher"""

    def __init__(self, ring):
        self.fmt, self.fns = ring
        self.width = wire.index_bytes(self.fns)
        self.inp, self.out, self.next = b'', b'', 0
        self.impl = [('native', f.name) for f in self.fns]
        self.loud = [f.index for f in self.fns if f.args] or [0]

    def pending(self):
        return len(self.out) - self.next

    def put(self, b):
        """(status, resolved function, arguments)"""
        self.inp += bytes([b])
        if len(self.inp) < self.width:
            return 'LOADING', None, None
        index = self.index()
        if index >= len(self.fns):
            self.inp = b''
            return 'DROPPED', None, None
        f = self.fns[index]
        if len(self.inp) < self.width + sum(map(wire.size, f.args)):
            return 'LOADING', None, None
        args, at = [], self.width
        for t in f.args:
            args.append(wire.decode(self.inp[at:], t, self.fmt))
            at += wire.size(t)
        self.inp, self.out, self.next = b'', b'', 0
        return 'RESOLVED', f, args

    def order(self):
        return 'little' if self.fmt.endian == 'LITTLE' else 'big'

    def index(self):
        return int.from_bytes(self.inp[:self.width], self.order())

    def state(self):
        return (len(self.inp), self.inp[:self.width], self.pending(), len(self.out))


class Callback:
    """What is installed by replace; forms are callables of various types"""

    def __init__(self, number, tag, fn):
        self.number, self.tag, self.fn = number, tag, fn

    def __call__(self, *args):
        return MONITORS[self.number].called(('python', self.tag), self.fn, args)

    def method(self, *args):
        return self(*args)


def make_callable(r, number, tag, fn):
    """(callable, what to watch)"""
    x = r.randrange(5)
    cb = Callback(number, tag, fn)
    if x == 0:
        return cb, weakref.ref(cb)
    if x == 1:
        return cb.method, weakref.ref(cb)
    if x == 2:
        return functools.partial(cb.method), weakref.ref(cb)
    if x == 3:
        f = lambda *args: cb(*args)  # noqa: E731
        return f, weakref.ref(f)
    n = len(fn.args)
    f = eval('lambda %s: cb(%s)' % (', '.join('a%d' % i for i in range(n)), ', '.join('a%d' % i for i in range(n))), {'cb': cb})
    return f, weakref.ref(f)


class Monitor:
    count = 0

    def __init__(self, r, mod, desc, ring, peers, faults):
        Monitor.count += 1
        self.number = Monitor.count
        MONITORS[self.number] = self
        self.r, self.mod, self.desc, self.ring, self.peers, self.faults = r, mod, desc, ring, peers, faults
        cls = getattr(mod, 'D%d' % ring)
        if r.random() < 0.1:
            cls = type('Derived', (cls,), {})
        self.d = cls()
        self.m = Model(desc.rings[ring])
        self.log = []
        self.refs = {}  # function index -> weak reference to what was installed
        self.gone = []
        self.busy = False
        self.tags = 0
        self.history = '%s.D%d#%d:' % (desc.name, ring, self.number)

    def note(self, text):
        self.history = (self.history if len(self.history) < 1200 else '...' + self.history[-800:]) + ' ' + text
        case(self.history)

    # --- callbacks

    def called(self, who, fn, args):
        r = self.r
        plain = [wire.from_python(a, t) for a, t in zip(args, fn.args)] if len(args) == len(fn.args) else list(args)
        x = r.random()
        if x < 0.12 and self.peers:  # something else is used in the middle of it
            p = r.choice(self.peers)
            if not p.busy and len([q for q in self.peers + [self] if q.busy]) < 3:
                p.step()
                ev('dispatchers used inside of the callbacks of others')
                case(self.history)
        x = r.random()
        if self.faults and x < 0.15:
            self.log.append((who, fn, plain, 'raise', None))
            raise CallbackError(self.number)
        if self.faults and x < 0.2 and who[0] == 'native':
            self.log.append((who, fn, plain, 'native', None))
            return 'throw'
        if self.faults and x < 0.35 and fn.ret is not None:
            self.log.append((who, fn, plain, 'bad', None))
            return bad_result(r, fn.ret)
        v = wire.gen_value(r, fn.ret, self.m.fmt)
        self.log.append((who, fn, plain, 'value', v))
        if fn.ret is None:
            return None if who[0] == 'native' else r.choice([None, 5, 'x', Odd()])
        return wire.to_python(v, fn.ret, self.mod)

    def check_calls(self, expected, error):
        """Exactly the expected invocation happened; returns whether an exception of the callback is expected"""
        log, self.log = self.log, []
        status, fn, args = expected
        if fn is None:
            must(not log, 'invoke', lambda: 'callbacks were invoked: %r' % [(w, f.name) for w, f, _, _, _ in log])
            return
        must(len(log) == 1, 'invoke', lambda: '%d callbacks were invoked instead of one: %r' % (len(log), [(w, f.name) for w, f, _, _, _ in log]))
        who, got_fn, got, outcome, v = log[0]
        must(who == self.m.impl[fn.index], 'invoke', lambda: '%r was invoked instead of %r' % (who, self.m.impl[fn.index]))
        must(len(got) == len(args) and all(wire.same(a, b, t) for a, b, t in zip(got, args, fn.args)), 'invoke',
             lambda: '%s was given %r instead of %r' % (fn.signature(), got, args))
        if outcome == 'value':
            must(error is None, 'exception', lambda: 'an exception came out of nowhere: %r' % error)
            self.m.out = wire.encode(v, fn.ret, self.m.fmt)
        else:
            must(error is not None, 'exception', lambda: 'the %s of the callback was swallowed' % {'bad': 'unconvertible result'}.get(outcome, 'exception'))
            if outcome == 'raise':
                must(type(error) is CallbackError and error.args == (self.number,), 'exception', lambda: 'the exception of the callback became %r' % error)
            if outcome == 'native':
                must(type(error) is RuntimeError and str(error) == 'native', 'exception', lambda: 'the exception of the callback became %r' % error)
        ev('callbacks invoked: %s, %s' % (who[0], outcome))

    def after(self, op, *more):
        must(self.d.is_loaded() is (self.m.pending() > 0), 'loaded', lambda: 'is_loaded is %r with %d bytes of response left' % (self.d.is_loaded(), self.m.pending()))
        mon.Stats.evaluations += 1
        mon.distinct(self.desc.name, self.ring, self.m.state(), op, more)

    # --- operations

    def next_bytes(self):
        """Bytes which make the current packet complete, or garbage"""
        r, m = self.r, self.m
        if not m.inp:
            x = r.random()
            top = 256 ** m.width
            if x < 0.85:
                index = r.choice(m.loud) if len(m.fns) > 100 and r.random() < 0.5 else r.randrange(len(m.fns))
            else:
                index = r.choice([len(m.fns), top - 1, top // 2, len(m.fns) + 1, r.randrange(len(m.fns), top)])
            head = index.to_bytes(m.width, m.order())
        elif len(m.inp) < m.width:
            head = bytes([r.choice([0, 0, 1, 1, r.randrange(256)])]) * (m.width - len(m.inp))
            index = int.from_bytes(m.inp + head, m.order())
        else:
            index, head = m.index(), b''
        if index < len(m.fns):
            f = m.fns[index]
            need = sum(map(wire.size, f.args))
            body = b''.join(wire.encode(wire.gen_value(r, t, m.fmt), t, m.fmt) for t in f.args) if r.random() < 0.7 else bytes(r.randrange(256) for _ in range(need))
            return head + body[max(0, len(m.inp) - m.width):]
        return head

    def run(self, f):
        try:
            return f(), None
        except mon.Abandon:
            raise
        except Exception as e:
            return None, e

    def put(self, b):
        self.note('put(%02x)' % b)
        expected = self.m.put(b)
        s, e = self.run(lambda: self.d.put(b))
        self.check_calls(expected, e)
        if expected[1] is None:
            must(e is None, 'exception', lambda: 'an exception came out of nowhere: %r' % e)
        if e is None:
            self.status(s, expected[0], 'put')
        ev('put: %s' % (expected[0] if e is None else 'callback failed'))
        self.after('put', expected[0], e is None)

    def status(self, s, want, op):
        import unpadded
        must(s is not None and s == getattr(unpadded.PacketStatus, want + '_PACKET'), 'status', lambda: '%s returned %r instead of %s' % (op, s, want))

    def read(self):
        r, m = self.r, self.m
        data = b''
        expected = ('LOADING', None, None)
        fault = r.random() < 0.3 and self.faults
        stop = r.randrange(1 + len(m.inp) + 4) if fault else None
        used = 0
        tried = self.next_bytes()
        while expected[0] == 'LOADING' and (stop is None or used < stop):
            if used == len(tried):
                tried += self.next_bytes() or b'\xff'
            expected = m.put(tried[used])
            used += 1
        stopped = expected[0] == 'LOADING'
        data = tried[:used]
        how = r.choice(['raise', 'bad', 'iter']) if stopped else ''
        self.note('read_from(%s%s)' % (data.hex(), ', then %s' % how if stopped else ''))
        pulled = [0]
        queue = list(data)

        def getter():
            if r.random() < 0.05 and self.peers:
                p = r.choice(self.peers)
                if not p.busy:
                    p.step()
                    ev('dispatchers used inside of the sources and sinks of others')
                    case(self.history)
            if pulled[0] == len(queue):
                if how == 'raise':
                    raise StreamError(self.number)
                if how == 'bad':
                    return r.choice([256, -1, 'a', None, b'a', 1.5, 1 << 70, Odd()])
                pulled[0] += 1
                raise StopIteration
            pulled[0] += 1
            return queue[pulled[0] - 1]

        form = r.randrange(4)
        src, count = getter, lambda: pulled[0]
        extra = [] if stopped else [0x55] * 3
        if form == 1 and (not stopped or how == 'iter'):
            left = collections.deque(list(data) + extra)
            src, count = left.popleft, lambda: len(data) + len(extra) - len(left)
        elif form == 2 and (not stopped or how == 'iter'):
            it = iter(data + bytes(extra))
            src, count = it.__next__, lambda: len(data) + len(extra) - it.__length_hint__()
        else:
            queue += extra
            if stopped:
                queue = list(data)
        s, e = self.run(lambda: self.d.read_from(src))
        self.check_calls(expected, e)
        if stopped:
            must(e is not None, 'exception', 'the fault of the getter was swallowed')
            if how == 'raise' and src is getter:
                must(type(e) is StreamError and e.args == (self.number,), 'exception', lambda: 'the exception of the getter became %r' % e)
        else:
            must(count() == used, 'pull', lambda: '%d bytes were read instead of %d' % (count(), used))
            if expected[1] is None:
                must(e is None, 'exception', lambda: 'an exception came out of nowhere: %r' % e)
        if e is None:
            self.status(s, expected[0], 'read_from')
        ev('read_from: %s' % (expected[0] if e is None else 'getter failed' if stopped else 'callback failed'))
        self.after('read', expected[0], e is None, used)

    def get(self):
        self.note('get')
        m = self.m
        b, e = self.run(self.d.get)
        must(e is None and type(b) is int and 0 <= b < 256, 'output', lambda: 'get gave %r, %r' % (b, e))
        if m.pending():
            must(b == m.out[m.next], 'output', lambda: 'byte %d of the response is %02x instead of %02x' % (m.next, b, m.out[m.next]))
            m.next += 1
            ev('get: byte')
        else:
            ev('get: empty')
        self.check_calls(('', None, None), None)
        self.after('get')

    def write(self):
        r, m = self.r, self.m
        fault = self.faults and m.pending() and r.random() < 0.3
        stop = r.randrange(m.pending()) if fault else None
        self.note('write_to%s' % ('(fails at byte %d)' % stop if fault else ''))
        out = bytearray()

        def putter(x):
            if r.random() < 0.05 and self.peers:
                p = r.choice(self.peers)
                if not p.busy:
                    p.step()
                    case(self.history)
            if fault and len(out) == stop:
                out.append(x)
                raise StreamError(self.number)
            out.append(x)
            return r.choice([None, 0, 'x'])

        _, e = self.run(lambda: self.d.write_to(putter if fault or r.random() < 0.6 else out.append))
        want = m.out[m.next:] if not fault else m.out[m.next:m.next + stop + 1]
        must(bytes(out) == want, 'output', lambda: '%s was written instead of %s' % (out.hex(), want.hex()))
        if fault:
            must(type(e) is StreamError and e.args == (self.number,), 'exception', lambda: 'the exception of the putter became %r' % e)
        else:
            must(e is None, 'exception', lambda: 'an exception came out of nowhere: %r' % e)
        m.next += len(want)
        ev('write_to: %s' % ('putter failed' if fault else 'bytes' if want else 'empty'))
        self.check_calls(('', None, None), None)
        self.after('write', len(want), bool(fault))

    def key(self, mod, ring, fn):
        return getattr(mod, fn.name)

    def released(self, ref, what):
        for i in range(300):  # other threads may be collecting garbage, or hold it for a while
            if ref() is None:
                break
            if i:
                time.sleep(0.01)
            gc.collect()
            ev('garbage collected')
        must(ref() is None, 'lifetime', lambda: 'a callback is still held after %s' % what)
        ev('callbacks released')

    def replace(self):
        r = self.r
        fn = r.choice(self.m.fns)
        self.tags += 1
        f, ref = make_callable(r, self.number, self.tags, fn)
        self.note('replace(%s, %d)' % (fn.name, self.tags))
        _, e = self.run(lambda: self.d.replace(self.key(self.mod, self.ring, fn), f))
        must(e is None, 'replace', lambda: 'replace raised %r' % e)
        f = e = None
        old = self.refs.pop(fn.index, None)
        self.m.impl[fn.index] = ('python', self.tags)
        self.refs[fn.index] = ref
        must(ref() is not None, 'lifetime', 'a callback was not kept alive by the dispatcher')
        if old:
            self.released(old, 'its replacement')
        ev('replacements')
        self.check_calls(('', None, None), None)
        self.after('replace', fn.index)

    def refused(self):
        """Calls which must be refused and change nothing"""
        r = self.r
        cb = Callback(self.number, -1, self.m.fns[0])
        ref = weakref.ref(cb)
        own = r.choice(self.m.fns)
        x = r.randrange(8)
        d, okey = self.d, getattr(self.mod, own.name)
        if x < 3:
            mod, desc, ring = r.choice(FOREIGN)
            if (desc, ring) == (self.desc, self.ring):
                return
            fn = r.choice(desc.rings[ring][1])
            what, f = 'replace(%s of another keyring)' % fn.name, lambda c: d.replace(getattr(mod, fn.name), c)
        elif x == 3:
            class Fake:
                def index(self):
                    return 0

                def __getattr__(self, name):
                    return lambda *a: okey
            what, f = 'replace(not a key)', lambda c: d.replace(r.choice([Fake(), None, 0, own.name, type(okey), Odd()]), c)
        elif x == 4:
            what, f = 'replace(not callable)', lambda c: d.replace(okey, r.choice([None, 5, 'x', Odd(), [c]]))
        elif x == 5:
            v = r.choice([256, -1, 'a', None, 1.5, 1 << 70, b'a', [1]])
            what, f = 'put(%r)' % (v,), lambda c: d.put(v)
        elif x == 6:
            what, f = 'wrong number of arguments', r.choice([lambda c: d.put(), lambda c: d.put(1, 2), lambda c: d.get(1), lambda c: d.is_loaded(1), lambda c: d.replace(okey),
                                                             lambda c: d.read_from(), lambda c: d.write_to(), lambda c: d.replace(okey, c, 1), lambda c: d.put(x=c)])
        else:
            what, f = 'streams which are not callable', r.choice([lambda c: d.read_from(5), lambda c: d.read_from('x'), lambda c: d.write_to(5), lambda c: d.write_to(b''),
                                                                  lambda c: d.read_from(Odd())])
        self.note(what)
        _, e = self.run(lambda: f(cb))
        must(e is not None, 'accepted', lambda: '%s was accepted' % what)
        must(not isinstance(e, SystemError), 'exception', lambda: '%s raised %r' % (what, e))
        cb = e = f = None
        self.released(ref, 'a call which was refused')
        self.check_calls(('', None, None), None)
        ev('refused calls')
        self.after('refused', x)

    def step(self):
        self.busy = True
        try:
            x = self.r.random()
            if x < 0.45:
                for b in self.next_bytes()[:self.r.choice([1, 2, 4, 100])]:
                    self.put(b)
            elif x < 0.6:
                self.read()
            elif x < 0.75:
                self.get()
            elif x < 0.85:
                self.write()
            elif x < 0.94:
                self.replace()
            else:
                self.refused()
        finally:
            self.busy = False

    def finish(self):
        """What is installed lives as long as the dispatcher and no longer"""
        for ref in self.refs.values():
            must(ref() is not None, 'lifetime', 'a callback was not kept alive by the dispatcher')
        case(self.history + ' and the dispatcher is destroyed')
        self.d = None
        for ref in self.refs.values():
            self.released(ref, 'the destruction of the dispatcher')


def hook_of(desc):
    by_name = {f.name: (ring, f) for ring, (_, fns) in enumerate(desc.rings) for f in fns}

    def hook(name, *args):
        ring, f = by_name[name]
        stack = [m for m in TL.monitors if m.busy and m.desc is desc and m.ring == ring]
        if not stack:
            mon.violation('invoke', 'the C++ callback %s was invoked out of nowhere' % name)
            raise CallbackError(-1)
        # the innermost one which is in use: they enter and leave in order
        return max(stack, key=lambda m: m.entered).called(('native', name), f, args)

    return hook


FOREIGN = []


def history(r, mods, steps, faults):
    group = []
    TL.monitors = group
    for _ in range(r.choice([1, 1, 2, 3])):
        mod, desc = r.choice(mods)
        group.append(Monitor(r, mod, desc, r.randrange(len(desc.rings)), group, faults))
    clock = [0]
    for m in group:
        m.peers = [p for p in group if p is not m and (p.desc is not m.desc or p.ring != m.ring)]
        m.entered = 0
        inner = m.step

        def step(m=m, inner=inner):
            clock[0] += 1
            m.entered = clock[0]
            inner()
        m.step = step
    try:
        for _ in range(steps):
            r.choice(group).step()
        for m in group:
            m.finish()
    except mon.Abandon:
        pass
    finally:
        for m in group:
            m.step = m.peers = None
        TL.monitors = []
    ev('histories')
    mon.sample(group[0].history)


def main():
    sys.path.insert(0, mon.opt.dir)
    r = mon.rng(2)
    import unpadded  # noqa: F401
    mods = []
    for spec in mon.opt.part.split(','):
        name, seed, count, many = spec.split(':')
        desc = DispModule(random.Random(int(seed)), name, int(count), int(many))
        case('import ' + name)
        try:
            mod = importlib.import_module(name)
        except ImportError as e:
            mon.violation('import', 'a module exposing dispatchers cannot be imported: %s' % e)
            continue
        mod.set_hook(hook_of(desc))
        mods.append((mod, desc))
        FOREIGN.extend((mod, desc, ring) for ring in range(len(desc.rings)))
    if not mods:
        mon.finish()
    rounds = int(250 * mon.opt.scale) or 1
    for i in range(rounds):
        history(r, mods, 60, faults=i % 3 > 0)
    # threads, each with dispatchers of its own
    sys.setswitchinterval(1e-5)
    seeds = [r.randrange(1 << 60) for _ in range(4)]

    def work(seed):
        q = random.Random(seed)
        for i in range(rounds // 4):
            history(q, mods, 40, faults=i % 3 > 0)
    ts = [threading.Thread(target=work, args=(s,)) for s in seeds]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    ev('threads with dispatchers of their own', len(ts))
    mon.finish()


main()
