"""Specification of the wire format: types are tuples

('i', bytes, signed)   ('b',)   ('a', element, count)   ('u', name, [fields])   None (void)
"""
ENDIANS = {'LITTLE': 'upd::little_endian', 'BIG': 'upd::big_endian'}
MODES = {'TWOS_COMPLEMENT': 'upd::twos_complement', 'ONES_COMPLEMENT': 'upd::ones_complement',
         'SIGNED_MAGNITUDE': 'upd::signed_magnitude', 'OFFSET_BINARY': 'upd::offset_binary'}


class Format:
    def __init__(self, endian, mode):
        self.endian, self.mode = endian, mode

    def __repr__(self):
        return '%s/%s' % (self.endian, self.mode)


def size(t):
    if t is None:
        return 0
    if t[0] == 'b':
        return 1
    if t[0] == 'i':
        return t[1]
    if t[0] == 'a':
        return t[2] * size(t[1])
    return sum(size(f) for f in t[2])


def bounds(t):
    """Range of a C++ integer type"""
    n = 8 * t[1]
    return (-(1 << (n - 1)), (1 << (n - 1)) - 1) if t[2] else (0, (1 << n) - 1)


def representable(t, fmt):
    lo, hi = bounds(t)
    if t[2] and fmt.mode in ('ONES_COMPLEMENT', 'SIGNED_MAGNITUDE'):
        lo += 1
    return lo, hi


def encode(v, t, fmt):
    if t is None:
        return b''
    if t[0] == 'b':
        return bytes([1 if v else 0])
    if t[0] == 'i':
        n = 8 * t[1]
        raw = v
        if t[2]:
            if fmt.mode == 'TWOS_COMPLEMENT':
                raw = v % (1 << n)
            elif fmt.mode == 'ONES_COMPLEMENT':
                raw = v if v >= 0 else (1 << n) - 1 - (-v)
            elif fmt.mode == 'SIGNED_MAGNITUDE':
                raw = v if v >= 0 else (1 << (n - 1)) + -v
            else:
                raw = v + (1 << (n - 1))
        return raw.to_bytes(t[1], 'little' if fmt.endian == 'LITTLE' else 'big')
    if t[0] == 'a':
        return b''.join(encode(x, t[1], fmt) for x in v)
    return b''.join(encode(x, f, fmt) for x, f in zip(v, t[2]))


def decode(b, t, fmt):
    """Value of the first bytes"""
    if t is None:
        return None
    if t[0] == 'b':
        return b[0] != 0
    if t[0] == 'i':
        n = 8 * t[1]
        raw = int.from_bytes(b[:t[1]], 'little' if fmt.endian == 'LITTLE' else 'big')
        if not t[2]:
            return raw
        top = 1 << (n - 1)
        if fmt.mode == 'TWOS_COMPLEMENT':
            return raw - (1 << n) if raw & top else raw
        if fmt.mode == 'ONES_COMPLEMENT':
            return raw - ((1 << n) - 1) if raw & top else raw
        if fmt.mode == 'SIGNED_MAGNITUDE':
            return -(raw - top) if raw & top else raw
        return raw - top
    if t[0] == 'a':
        s = size(t[1])
        return [decode(b[i * s:], t[1], fmt) for i in range(t[2])]
    out, at = [], 0
    for f in t[2]:
        out.append(decode(b[at:], f, fmt))
        at += size(f)
    return tuple(out)


# --- C++


def cpp(t):
    if t is None:
        return 'void'
    if t[0] == 'b':
        return 'bool'
    if t[0] == 'i':
        return 'std::%sint%d_t' % ('' if t[2] else 'u', 8 * t[1])
    if t[0] == 'a':
        return 'std::array<%s, %d>' % (cpp(t[1]), t[2])
    return t[1]


# --- generation


def gen_scalar(r):
    return ('b',) if r.random() < 0.12 else ('i', r.choice([1, 1, 2, 2, 4, 8]), r.random() < 0.6)


def gen_type(r, user=None, depth=0):
    x = r.random()
    if user and x < 0.2:
        return user
    if depth < 2 and x > 0.75:
        return ('a', gen_type(r, None, depth + 1), r.randint(1, 4))  # the library does not have arrays of user types
    return gen_scalar(r)


def gen_long(r):
    """Values of more than 255 bytes"""
    n = r.choice([1, 1, 2])
    return ('a', ('i', n, r.random() < 0.5), r.randint(256 // n + 1, 700 // n))


def gen_value(r, t, fmt):
    if t is None:
        return None
    if t[0] == 'b':
        return r.random() < 0.5
    if t[0] == 'i':
        lo, hi = representable(t, fmt)
        x = r.random()
        if x < 0.15:
            return r.choice([lo, hi])
        if x < 0.5:
            return min(hi, max(lo, r.choice([-1, 0, 1, 1, lo + r.randint(0, 2), hi - r.randint(0, 2), -129, 127, 128, 255, 256, -32769])))
        return r.randint(lo, hi) >> r.choice([0, 0, r.randint(0, 8 * t[1] - 1)])
    if t[0] == 'a':
        return [gen_value(r, t[1], fmt) for _ in range(t[2])]
    return tuple(gen_value(r, f, fmt) for f in t[2])


def same(a, b, t):
    """Is what Python was given (a, plain values) exactly the expected value, of the expected type?"""
    if t is None:
        return a is None and b is None
    if t[0] == 'b':
        return type(a) is bool and a == b
    if t[0] == 'i':
        return type(a) is int and a == b
    if t[0] == 'a':
        return type(a) is list and len(a) == len(b) and all(same(x, y, t[1]) for x, y in zip(a, b))
    return type(a) is tuple and len(a) == len(b) and all(same(x, y, f) for x, y, f in zip(a, b, t[2]))


def index_bytes(fns):
    return 1 if len(fns) <= 255 else 2


class Fn:
    def __init__(self, name, kind, ret, args, refs):
        self.name, self.kind, self.ret, self.args, self.refs = name, kind, ret, args, refs
        self.index = None

    def signature(self):
        return '%s %s(%s)' % (cpp(self.ret), self.name, ', '.join(map(cpp, self.args)))

    def params(self, named=False):
        return ', '.join(('const %s &' if ref else '%s ') % cpp(t) + ('a%d' % i if named else '') for i, (t, ref) in enumerate(zip(self.args, self.refs)))


NAMES = ['f', 'f1', 'f11', '_f', 'F', 'upd_', 'unevaluated', 'key', 'decode', 'set', 'a_b_c', 'x__y', 'std_array', 'operator_', 'm0', 'int_', 'ToBytes', 'P9',
         'call', 'bool_', 'very_long_name_which_does_not_fit_in_a_short_string_at_all_really', 'g', 'h2o', 'encode1', 'get_', 'is_loaded_', 'q']


def gen_functions(r, n, prefix, user, kinds=('function',), shapes=None):
    names = ['%s%s' % (prefix, x) for x in r.sample(NAMES, min(n, len(NAMES)))]
    names += ['%sextra%d' % (prefix, i) for i in range(n - len(names))]
    fns = []
    long = n - 1 if n <= 100 else None
    for i, name in enumerate(names):
        if shapes and i < len(shapes):
            ret, args = shapes[i]
        else:
            ret = None if r.random() < 0.2 else gen_type(r, user)
            args = [gen_type(r, user) for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4, 6]))]
        if i == long:
            args = args[:2] + [gen_long(r)]
            r.shuffle(args)
            ret = gen_long(r) if r.random() < 0.7 else ret
        f = Fn(name, r.choice(kinds), ret, args, [r.random() < 0.4 for _ in args])
        f.index = i
        fns.append(f)
    return fns


def gen_user(r, name):
    return ('u', name, [gen_scalar(r) for _ in range(r.randint(1, 3))])


def user_source(u):
    name, fields = u[1], u[2]
    ps = ', '.join('%s f%d' % (cpp(t), i) for i, t in enumerate(fields))
    return '''
struct %s { %s };
template<> struct upd_extension<%s> {
  template<typename V> static void serialize(const %s &x, V &v) { %s }
  static %s unserialize(%s) { return %s{%s}; }
};
''' % (name, ' '.join('%s f%d;' % (cpp(t), i) for i, t in enumerate(fields)), name, name,
       ' '.join('v.template set<%d>(x.f%d);' % (i, i) for i in range(len(fields))), name, ps, name, ', '.join('f%d' % i for i in range(len(fields))))


def user_binding(u):
    name, fields = u[1], u[2]
    ps = ', '.join('%s f%d' % (cpp(t), i) for i, t in enumerate(fields))
    return 'pybind11::class_<%s>{m, "%s"}.def(pybind11::init([](%s) { return %s{%s}; }))%s;\n' % (
        name, name, ps, name, ', '.join('f%d' % i for i in range(len(fields))),
        ''.join('.def_readonly("f%d", &%s::f%d)' % (i, name, i) for i in range(len(fields))))


def to_python(v, t, module):
    """Plain value to what is given to the module"""
    if t is not None and t[0] == 'a':
        return [to_python(x, t[1], module) for x in v]
    if t is not None and t[0] == 'u':
        return getattr(module, t[1])(*v)
    return v


def from_python(v, t):
    if t is not None and t[0] == 'a' and type(v) is list:
        return [from_python(x, t[1]) for x in v]
    if t is not None and t[0] == 'u':
        return tuple(getattr(v, 'f%d' % i) for i in range(len(t[2])))
    return v
