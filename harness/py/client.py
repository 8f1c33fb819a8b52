"""C23: concurrent calls through clients, whose responses come back in any order, fail or are cancelled"""
import asyncio
import contextvars
import importlib
import random
import sys
import threading

import mon
import wire
from gen_keys import KeysModule
from mon import case, ev, must


WHOSE = contextvars.ContextVar('call which is being made', default=None)


class RequestError(Exception):
    pass


class DecodeError(Exception):
    pass


class Odd:
    pass


class Awaitable:
    def __init__(self, fut, r):
        self.fut, self.spins = fut, r.randrange(3)

    def __await__(self):
        for _ in range(self.spins):
            yield
        return (yield from self.fut.__await__())


class FakeKey:
    """Something which behaves as a key and tells what is asked to it"""

    def __init__(self, number):
        self.number, self.encoded, self.decoded = number, [], []
        self.error = None

    def encode(self, *args):
        self.encoded.append(args)
        if isinstance(args[0] if args else None, Exception):
            raise args[0]
        return b'fake' + self.number.to_bytes(4, 'big') + repr(args).encode()

    def decode(self, payload):
        self.decoded.append(payload)
        if self.error:
            raise self.error
        return ('decoded', self.number, payload)


class Call:
    def __init__(self):
        self.sent = []  # requests which carried its payload
        self.fut = None
        self.outcome = None  # what it must end with
        self.cancelled = False


def make_client(r, base, world):
    """A client with one of the forms of new_request"""
    form = r.randrange(6)

    def register(payload):
        fut = asyncio.get_running_loop().create_future()
        must(type(payload) is bytes, 'request', lambda: 'new_request was given %r' % payload)
        world['requests'].append((payload, fut, WHOSE.get()))
        return fut

    if form == 0:
        class C(base):
            def new_request(self, payload):
                return register(payload)
    elif form == 1:
        class C(base):
            async def new_request(self, payload):
                return await register(payload)
    elif form == 2:
        class C(base):
            async def new_request(self, payload):
                for _ in range(r.randrange(4)):
                    await asyncio.sleep(0)
                x = await register(payload)
                for _ in range(r.randrange(4)):
                    await asyncio.sleep(0)
                return x
    elif form == 3:
        class C(base):
            def new_request(self, payload):
                return Awaitable(register(payload), r)
    elif form == 4:
        class C(base):
            def __init__(self):
                self.log = []

            def new_request(self, payload):
                self.log.append(payload)
                return asyncio.ensure_future(self.exchange(payload))

            async def exchange(self, payload):
                await asyncio.sleep(0)
                return await register(payload)
    else:
        class C(base):
            __slots__ = ('x',)

            def new_request(self, payload):
                self.x = register(payload)
                return self.x
    return C(), form


async def session(r, mods, base, faults):
    """Many calls at once; every one is followed from its start to its end"""
    loop = asyncio.get_running_loop()
    world = {'requests': []}
    clients = [make_client(r, base, world) for _ in range(r.choice([1, 1, 2, 3]))]
    calls = []
    handled = 0

    async def one(client, key, args, c):
        WHOSE.set(c)
        try:
            c.got = ('value', await client.call(key, *args))
        except asyncio.CancelledError:
            c.got = ('cancelled', None)
        except mon.Abandon:
            raise
        except Exception as e:
            c.got = ('raised', e)

    def start():
        c = Call()
        c.got = None
        client, form = r.choice(clients)
        c.number = len(calls)
        x = r.random()
        if x < 0.25:
            key = FakeKey(c.number)
            args = tuple(r.choice([1, 'x', None, 2.5]) for _ in range(r.randrange(4)))
            c.what = 'fake key'
            c.want = b'fake' + c.number.to_bytes(4, 'big') + repr(args).encode()
            if faults and r.random() < 0.2:
                e = RequestError('encode')
                args = (e,) + args
                c.outcome = ('raised', e)
                c.want = None
            c.key, c.ret, c.fmt = key, None, None
        else:
            mod, desc = r.choice(mods)
            i = r.randrange(len(desc.rings))
            c.fmt, fns = desc.rings[i]
            f = r.choice(fns)
            key = getattr(mod, f.name)
            values = [wire.gen_value(r, t, c.fmt) for t in f.args]
            args = [wire.to_python(v, t, mod) for v, t in zip(values, f.args)]
            c.want = bytes([f.index]) + b''.join(wire.encode(v, t, c.fmt) for v, t in zip(values, f.args))
            c.what, c.key, c.ret = f.signature(), key, f.ret
            if faults and r.random() < 0.1:
                args = args + [Odd()]
                c.outcome, c.want = ('raised', TypeError), None
        calls.append(c)
        case('call %d (%s, client of form %d)' % (c.number, c.what, form))
        c.task = loop.create_task(one(client, key, args, c))

    def answer(c):
        """One of the things which may happen to a request"""
        x = r.random()
        fake = isinstance(c.key, FakeKey)
        if not faults:
            x *= 0.5
        if x < 0.5:
            if fake:
                b = bytes(r.randrange(256) for _ in range(r.randrange(5)))
                c.outcome = ('value', ('decoded', c.number, b))
            else:
                b = bytes(r.choice([0, 1, 0x80, 0xff, r.randrange(256)]) for _ in range(wire.size(c.ret)))
                c.outcome = ('decoded', wire.decode(b, c.ret, c.fmt))
            c.fut.set_result(b)
            ev('responses')
        elif x < 0.6:
            o = r.choice([None, 5, 'text', bytearray(b'abc'), memoryview(b'abc'), [b'x'], Odd(), (1, 2), 0, False, '', object(), bytearray()])
            c.outcome = ('same', o)
            c.fut.set_result(o)
            ev('responses which are not bytes')
        elif x < 0.75:
            e = r.choice([RequestError('lost'), ValueError('x'), OSError(5, 'y'), asyncio.TimeoutError(), NotImplementedError(), TypeError('z'), AttributeError('a')])
            c.outcome = ('raised', e)
            c.fut.set_exception(e)
            ev('requests which fail')
        elif x < 0.85 and (fake or wire.size(c.ret)):
            if fake:
                c.key.error = DecodeError()
                c.outcome = ('raised', c.key.error)
                c.fut.set_result(b'?')
            else:
                c.outcome = ('raised', ValueError)
                c.fut.set_result(bytes(r.randrange(wire.size(c.ret))))
            ev('responses which cannot be decoded')
        elif x < 0.92:
            c.outcome = ('cancelled', None)
            c.fut.cancel()
            ev('requests which are cancelled')
        else:
            c.outcome = ('cancelled', None)
            c.task.cancel()
            ev('calls which are cancelled')

    def match():
        nonlocal handled
        for payload, fut, c in world['requests'][handled:]:
            must(c is not None, 'request', lambda: '%s was sent out of the calls' % payload.hex())
            must(payload == c.want, 'request', lambda: '%s: %s was sent instead of %s' % (c.what, payload.hex(), c.want and c.want.hex()))
            must(c.fut is None, 'request', lambda: '%s: the request was sent twice' % c.what)
            c.fut = fut
        handled = len(world['requests'])

    total = r.choice([1, 2, 5, 12, 40])
    started = 0
    waiting = []
    order = []
    idle = 0
    burst = r.random() < 0.3  # every call is to send its request, whatever becomes of the others
    while started < total or any(not c.task.done() for c in calls):
        match()
        waiting = [c for c in calls if c.fut is not None and c.outcome is None and not c.task.done()]
        x = r.random()
        if started < total and (x < 0.5 or burst or not waiting):
            start()
            started += 1
            if burst and started == total:
                for _ in range(100):
                    await asyncio.sleep(0)
                match()
                for c in calls:
                    must(c.fut is not None or c.want is None or c.outcome is not None, 'lost', lambda: '%s: the request waits for those of other calls' % c.what)
                ev('calls in flight at once', sum(c.fut is not None and not c.task.done() for c in calls))
        elif waiting:
            c = r.choice([waiting[-1], waiting[0], r.choice(waiting)])
            if sum(c.want == d.want for d in waiting) > 1:
                ev('answers to one of several identical requests in flight')
            order.append(c.number)
            answer(c)
        elif not waiting:
            idle += 1
            must(idle < 2000, 'lost', lambda: 'calls %r never end' % [(c.number, c.what, c.outcome) for c in calls if not c.task.done()][:5])
        for _ in range(r.choice([0, 0, 1, 1, 2, 5])):
            await asyncio.sleep(0)
    match()
    mon.distinct('order', tuple(order))
    for c in calls:
        case('call %d (%s)' % (c.number, c.what))
        mon.Stats.evaluations += 1
        if isinstance(c.key, FakeKey):
            must(len(c.key.encoded) == 1, 'request', lambda: 'encode was called %d times' % len(c.key.encoded))
            must(len(c.key.decoded) <= 1, 'outcome', lambda: 'decode was called %d times' % len(c.key.decoded))
        if c.want is None:
            must(c.got[0] == 'raised', 'outcome', lambda: 'a request which cannot be encoded gave %r' % (c.got,))
        else:
            must(c.fut is not None or c.outcome is None or c.outcome[0] == 'cancelled', 'request', 'no request was sent')
        kind, want = c.outcome
        got_kind, got = c.got
        wrong = lambda: 'ended with %r instead of %r' % (c.got, c.outcome)  # noqa: E731
        if kind == 'value':
            must(got_kind == 'value' and got == want, 'outcome', wrong)
        elif kind == 'decoded':
            must(got_kind == 'value' and wire.same(wire.from_python(got, c.ret), want, c.ret), 'outcome', wrong)
        elif kind == 'same':
            must(got_kind == 'value' and got is want, 'outcome', wrong)
        elif kind == 'raised':
            must(got_kind == 'raised' and (got is want or (isinstance(want, type) and isinstance(got, want))), 'outcome', wrong)
        else:
            must(got_kind == 'cancelled', 'outcome', wrong)
        mon.distinct(c.what, kind, str(want)[:60])
        ev('calls which end: %s' % kind)
    ev('sessions')
    mon.sample('%d calls over %d clients, answered in the order %r' % (total, len(clients), order[:20]))


async def not_implemented(r, mods, base):
    class Empty(base):
        pass
    for cls in (base, Empty):
        mod, desc = r.choice(mods)
        f = r.choice([f for f in desc.rings[0][1]])
        args = [wire.to_python(wire.gen_value(r, t, desc.rings[0][0]), t, mod) for t in f.args]
        case('%s().call(%s)' % (cls.__name__, f.signature()))
        try:
            v = await cls().call(getattr(mod, f.name), *args)
            must(False, 'not-implemented', lambda: 'a client without new_request gave %r' % (v,))
        except NotImplementedError:
            ev('clients which do not send requests')
        except mon.Abandon:
            raise
        except Exception as e:
            must(False, 'not-implemented', lambda: 'a client without new_request raised %r' % e)


def main():
    sys.path.insert(0, mon.opt.dir)
    r = mon.rng(3)
    import unpadded
    mods = []
    for spec in mon.opt.part.split(','):
        name, seed, count, many = spec.split(':')
        mods.append((importlib.import_module(name), KeysModule(random.Random(int(seed)), name, int(count), int(many))))

    def rounds(r, n):
        for i in range(n):
            try:
                asyncio.run(session(r, mods, unpadded.Client, i % 3 > 0))
            except mon.Abandon:
                pass

    for _ in range(4):
        try:
            asyncio.run(not_implemented(r, mods, unpadded.Client))
        except mon.Abandon:
            pass
    n = int(600 * mon.opt.scale) or 1
    rounds(r, n)
    sys.setswitchinterval(1e-5)
    ts = [threading.Thread(target=rounds, args=(random.Random(r.randrange(1 << 60)), n // 4)) for _ in range(4)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    ev('threads with event loops of their own', len(ts))
    mon.finish()


main()
