"""C21: the source of an extension module exposing random keyrings, and its description"""
import wire

ALL = [(e, m) for e in wire.ENDIANS for m in wire.MODES]


class KeysModule:
    """Everything depends on the name and the seed only"""

    def __init__(self, r, name, count, many=0):
        self.name = name
        self.rings = []  # (format, functions)
        self.users = [wire.gen_user(r, name + '_Point')] if r.random() < 0.8 and not many else []
        user = self.users[0] if self.users else None
        fmts = r.sample(ALL, 2)
        # two keyrings whose first keys are of the same shapes, and a third one with the format of the first
        kinds = ('function',) * 6 + ('functor', 'lambda')
        a = wire.gen_functions(r, many or count, name + '_', user, ('function',) if many else kinds)
        if many:
            for f in a:
                f.ret, f.args, f.refs = (None, [], []) if f.index % 50 else (('i', 2, True), [('i', 4, True)], [False])
        self.rings.append((wire.Format(*fmts[0]), a))
        if not many:
            shapes = [(f.ret, f.args) for f in a[:2]]
            self.rings.append((wire.Format(*fmts[1]), wire.gen_functions(r, count // 2, name + '_b', user, kinds, shapes)))
            self.rings.append((wire.Format(*fmts[0]), wire.gen_functions(r, 2, name + '_c', user, ('function',), shapes)))

    def index_bytes(self, ring):
        return wire.index_bytes(self.rings[ring][1])

    def source(self):
        s = '#include <array>\n#include <cstdint>\n#include <upd/keyring.hpp>\n#include <upd/python.hpp>\n#include <upd/type.hpp>\n'
        s += ''.join(map(wire.user_source, self.users))
        for _, fns in self.rings:
            for f in fns:
                ret = wire.cpp(f.ret)
                if f.kind == 'function':
                    s += '%s %s(%s);\n' % (ret, f.name, f.params())
                elif f.kind == 'functor':
                    s += 'struct { %s operator()(%s) { return %s; } } %s;\n' % (ret, f.params(), '' if f.ret is None else ret + '{}', f.name)
                else:
                    s += 'auto %s = [](%s) -> %s { return %s; };\n' % (f.name, f.params(), ret, '' if f.ret is None else ret + '{}')
        for i, (fmt, fns) in enumerate(self.rings):
            s += 'constexpr upd::keyring kr%d{upd::flist<%s>, %s, %s};\n' % (i, ', '.join(f.name for f in fns), wire.ENDIANS[fmt.endian], wire.MODES[fmt.mode])
        s += 'PYBIND11_MODULE(%s, m) {\n%s%s}\n' % (self.name, ''.join(map(wire.user_binding, self.users)),
                                                    ''.join('  upd::py::unpack_keyring(m, kr%d);\n' % i for i in range(len(self.rings))))
        return s
