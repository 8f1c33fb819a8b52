"""C22: the source of an extension module exposing random dispatchers, whose C++ callbacks ask Python what to do"""
import wire
from gen_keys import ALL

HEAD = '''#include <array>
#include <cstdint>
#include <stdexcept>
#include <upd/keyring.hpp>
#include <upd/python.hpp>
#include <upd/type.hpp>

static PyObject *hook = nullptr;
template<typename R, typename... Args>
R relay(const char *name, const Args &...args) {
  pybind11::object r = pybind11::reinterpret_borrow<pybind11::object>(hook)(name, args...);
  if (pybind11::isinstance<pybind11::str>(r))
    throw std::runtime_error{"native"};
  if constexpr (!std::is_void_v<R>)
    return r.template cast<R>();
}
'''


class DispModule:
    def __init__(self, r, name, count, many=0):
        self.name = name
        self.users = [wire.gen_user(r, name + '_Point')] if r.random() < 0.8 else []
        user = self.users[0] if self.users else None
        fmts = r.sample(ALL, 2)
        self.rings = [(wire.Format(*fmts[0]), wire.gen_functions(r, count, name + '_', user))]
        if many:
            fns = wire.gen_functions(r, many, name + '_', None)
            for f in fns:
                if f.index % 20:
                    f.ret, f.args, f.refs = (None, [], []) if f.index % 2 else (('i', 2, True), [('i', 2, True)], [False])
            self.rings = [(wire.Format(*fmts[0]), fns)]
            return
        shapes = [(f.ret, f.args) for f in self.rings[0][1][:3]]
        # the same shapes in another format, and in the same one
        self.rings.append((wire.Format(*fmts[1]), wire.gen_functions(r, max(3, count // 2), name + '_b', user, shapes=shapes)))
        self.rings.append((wire.Format(*fmts[0]), wire.gen_functions(r, 3, name + '_c', user, shapes=shapes)))

    def source(self):
        s = HEAD + ''.join(map(wire.user_source, self.users))
        for _, fns in self.rings:
            for f in fns:
                s += '%s %s(%s) { return relay<%s>(%s); }\n' % (wire.cpp(f.ret), f.name, f.params(True), wire.cpp(f.ret),
                                                               ', '.join(['"%s"' % f.name] + ['a%d' % i for i in range(len(f.args))]))
        for i, (fmt, fns) in enumerate(self.rings):
            s += 'constexpr upd::keyring kr%d{upd::flist<%s>, %s, %s};\n' % (i, ', '.join(f.name for f in fns), wire.ENDIANS[fmt.endian], wire.MODES[fmt.mode])
        s += 'PYBIND11_MODULE(%s, m) {\n%s' % (self.name, ''.join(map(wire.user_binding, self.users)))
        s += '  m.def("set_hook", [](pybind11::object f) { Py_XSETREF(hook, f.release().ptr()); });\n'
        return s + ''.join('  upd::py::declare_dispatcher(m, "D%d", kr%d);\n' % (i, i) for i in range(len(self.rings))) + '}\n'
