"""C24: random histories of edits, left-over builds and imports of opted-in C++ modules and of other modules, each run of
imports being done by an interpreter of its own"""
import json
import os
import shutil
import subprocess
import sys
import zipfile

import mon
from mon import case, ev, must

CHILD = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'hook_child.py')
STDLIB = os.path.dirname(os.__file__)
SUFFIX = __import__('sysconfig').get_config_var('EXT_SUFFIX')
STD = ['json', 'wave', 'colorsys', 'email.mime.text', 'xml.dom.minidom', 'decimal', 'html.entities', 'fractions', 'this_does_not_exist', 'json.nothing', 'encodings.idna',
       'concurrent.futures', 'wsgiref.util', 'sched', 'antigravity_', 'curses.ascii', 'unittest.mock', 'zipimport', 'sys', '_thread']
R = mon.rng(4)


class Module:
    """An opted-in C++ module and what it is worth at present"""

    def __init__(self, root, name, kind):
        self.name, self.kind = name, kind
        self.dir = os.path.join(root, *name.split('.')[:-1])
        self.last = name.split('.')[-1]
        self.cpp = os.path.join(self.dir, self.last + '.cpp')
        self.header = os.path.join(self.dir, self.last + '_dep.hpp')
        self.so = os.path.join(self.dir, self.last + SUFFIX)
        self.version, self.dep, self.broken, self.opted = R.randrange(100, 999), R.randrange(100, 999), None, True
        self.imports = None  # another module which its initialization imports
        self.asks = []  # ordinary top-level modules which its initialization imports
        self.archive = []  # binaries built earlier
        self.phases = R.random() < 0.5  # whether it is created and initialized in two phases
        os.makedirs(self.dir, exist_ok=True)
        self.write()

    def value(self):
        return self.version * 1000 + self.dep

    def text(self):
        b = self.broken
        first = '// cppimport' if self.opted else '// not opted in'
        if self.kind == 'binding':
            body = '''#include <upd/keyring.hpp>
#include <upd/python.hpp>
#include "%s_dep.hpp"
std::uint8_t callback(std::uint8_t);
constexpr upd::keyring keyring{upd::flist<callback>, upd::little_endian, upd::twos_complement};
PYBIND11_MODULE(%s, m) {
  upd::py::unpack_keyring(m, keyring);
  m.def("value", [] { return %d * 1000L + DEP; });
}
''' % (self.last, self.last, self.version)
        else:
            body = '''#include <Python.h>
#include <upd/tuple.hpp>
#include "%s_dep.hpp"
static_assert(__cplusplus == 201703L, "");
static PyObject *value(PyObject *, PyObject *) {
  upd::tuple t{upd::big_endian, upd::twos_complement, %dL};
  return PyLong_FromLong(t.get<0>() * 1000 + DEP);
}
%s
static PyMethodDef methods[] = {{"value", value, METH_NOARGS, ""}, %s{nullptr, nullptr, 0, nullptr}};
extern "C" int nowhere();
static long inits;
static PyObject *initialized(PyObject *, PyObject *) { return PyLong_FromLong(inits); }
static PyMethodDef more[] = {{"initialized", initialized, METH_NOARGS, ""}, {nullptr, nullptr, 0, nullptr}};
static int work(PyObject *module) {
  inits++;
  %s
  return PyModule_AddFunctions(module, more);
}
%s
''' % (self.last, self.version,
       '#include <extra_dep.hpp>\nstatic PyObject *extra(PyObject *, PyObject *) { return PyLong_FromLong(EXTRA); }' if self.kind == 'extra' else '',
       '{"extra", extra, METH_NOARGS, ""}, ' if self.kind == 'extra' else '',
       ''.join('{ PyObject *m = PyImport_ImportModule("%s"); if (!m) return -1; Py_DECREF(m); } ' % x for x in ([self.imports] if self.imports else []) + self.asks) +
       ('if (nowhere()) return -1;' if b == 'symbol' else '') + ('PyErr_SetString(PyExc_ValueError, "init"); return -1;' if b == 'init' else ''),
       ('''static PyModuleDef_Slot slots[] = {{Py_mod_exec, reinterpret_cast<void *>(work)}, {0, nullptr}};
static PyModuleDef def = {PyModuleDef_HEAD_INIT, "%s", nullptr, 0, methods, slots};
PyMODINIT_FUNC PyInit_%s() { return PyModuleDef_Init(&def); }''' if self.phases else '''static PyModuleDef def = {PyModuleDef_HEAD_INIT, "%s", nullptr, -1, methods};
PyMODINIT_FUNC PyInit_%s() {
  PyObject *m = PyModule_Create(&def);
  return m && !work(m) ? m : nullptr;
}''') % (self.last, self.last))
            if b == 'syntax':
                body += 'this is not C++ (\n'
            elif b == 'assert':
                body += 'static_assert(sizeof(int) == 1, "");\n'
            elif b == 'include':
                body += '#include <upd/there_is_no_such_header.hpp>\n'
        link = 'cfg["libraries"] += ["there_is_no_such_library"]' if b == 'link' else ''
        return '%s\n%s/*\n<%%\nsetup_unpadded(cfg)\n%s\n%%>\n*/\n' % (first, body, link)

    def write(self):
        put(self.cpp, self.text())
        put(self.header, '#pragma once\n#define DEP %d\n' % self.dep if self.broken != 'header' else '#error broken\n')


def put(path, text):
    """Neither the size nor the date of a file tell whether it was edited"""
    with open(path, 'w') as f:
        f.write(text)
    os.utime(path, (1.6e9, 1.6e9))


class Workspace:
    def __init__(self, root, kinds):
        self.root = root
        os.makedirs(root)
        self.names = {'plain': 'alpha', 'dotted': 'pkg.beta', 'deep': 'pkg.inner.gamma', 'namespace': 'space.delta', 'extra': 'epsilon', 'nested': 'zeta', 'binding': 'eta',
                      'twin': 'theta'}
        for d in ('pkg', 'pkg/inner'):
            os.makedirs(os.path.join(root, d), exist_ok=True)
            put(os.path.join(root, d, '__init__.py'), 'here = %r\n' % d)
        self.mods = {k: Module(root, self.names[k], k) for k in kinds}
        if 'nested' in self.mods:
            others = [k for k in ('plain', 'twin', 'dotted') if k in self.mods]
            if others:
                self.mods['nested'].imports = self.names[others[0]]
                self.mods['nested'].other = self.mods[others[0]]
            self.mods['nested'].write()
        # modules whose neighbours are named as top-level modules, which are not what they import
        put(os.path.join(root, 'helper_mod.py'), 'where = "root"\n')
        for k in ('dotted', 'deep', 'namespace', 'plain'):
            if k in self.mods:
                m = self.mods[k]
                m.asks = R.sample(['helper_mod', 'sched', 'wave', 'colorsys'], R.choice([1, 2]))
                if k != 'plain':
                    for x in m.asks:
                        put(os.path.join(m.dir, x + '.py'), 'where = "neighbour"\n')
                m.write()
        if 'twin' in self.mods:  # a Python module of the same name
            put(os.path.join(root, 'theta.py'), 'def value(): return "python"\n')
        self.extra_dirs = [os.path.join(root, 'extra1'), os.path.join(root, 'extra2')]
        self.extra = [R.randrange(1000), R.randrange(1000)]
        for d, v in zip(self.extra_dirs, self.extra):
            os.makedirs(d)
            put(os.path.join(d, 'extra_dep.hpp'), '#define EXTRA %d\n' % v)
        # ordinary modules
        self.ordinary = []
        os.makedirs(os.path.join(root, 'pk'), exist_ok=True)
        os.makedirs(os.path.join(root, 'names', 'pace'), exist_ok=True)
        for name, text in (('py_a', 'import py_b\nx = 1\ny = "a"\n'), ('py_b', 'import py_a\nz = 3\n'), ('py_error', 'raise ValueError("no")\n'),
                           ('py_import_error', 'import nothing_here\n'), ('py_syntax', 'x = (\n'), ('py_self', 'import sys\nsys.modules[__name__] = sys.modules["json"]\n' if False else 'w = 5\n'),
                           ('pk.__init__', 'from . import mod\nv = mod.v\n'), ('pk.mod', 'v = 4\nfrom .. import nothing\n' if False else 'v = 4\n'),
                           ('names.pace.leaf', 'leaf = 1\n'), ('shadow', 'shadow = 7\n'), ('pk.shadow2', 'shadow = 8\n'), ('directory', 'd = 9\n'), ('py_exit', 'import sys\nsys.exit(3)\n'),
                           ('py_interrupt', 'raise KeyboardInterrupt()\n')):
            put(os.path.join(root, name.replace('.', '/') + '.py'), text)
            if not name.endswith('__init__'):
                self.ordinary.append(name)
        self.ordinary += ['pk', 'names', 'names.pace', 'only_cpp', 'in_zip', 'zip_pkg.mod', 'pk.only_cpp2', 'pk.mod.deeper', 'pkg', 'pkg.inner', 'pkg.none', 'empty', 'noise']
        # C++ sources which are not opted in
        for f in ('shadow.cpp', 'pk/shadow2.cpp', 'only_cpp.cpp', 'pk/only_cpp2.cpp'):
            put(os.path.join(root, f), '// just C++\n#error cppimport\n')
        put(os.path.join(root, 'empty.cpp'), '')
        with open(os.path.join(root, 'noise.cpp'), 'wb') as f:
            f.write(b'\xff\xfe\x00\n\x80')
        os.makedirs(os.path.join(root, 'directory.cpp'))
        self.zip = os.path.join(root, 'lib.zip')
        with zipfile.ZipFile(self.zip, 'w') as z:
            z.writestr('in_zip.py', 'q = 6\n')
            z.writestr('zip_pkg/__init__.py', '')
            z.writestr('zip_pkg/mod.py', 'q = 7\n')
        self.runs = 0

    # --- what happens between the imports

    def disturb(self):
        m = R.choice(list(self.mods.values()))
        x = R.random()
        before = m.value()
        if x < 0.25:
            m.version = R.randrange(100, 999)
            what = 'source of %s edited' % m.name
        elif x < 0.5:
            m.dep = R.randrange(100, 999)
            what = 'header of %s edited' % m.name
        elif x < 0.62 and m.kind != 'binding':
            m.broken = R.choice(['syntax', 'assert', 'include', 'link', 'header', 'symbol', 'init'])
            what = '%s broken (%s)' % (m.name, m.broken)
        elif x < 0.7:
            m.broken = None
            what = '%s mended' % m.name
        elif x < 0.8 and m.archive:
            shutil.copy(R.choice(m.archive), m.so)
            what = 'earlier binary of %s left behind' % m.name
        elif x < 0.86:
            with open(m.so, 'wb') as f:
                f.write(R.choice([b'', b'garbage' * 100, b'\x7fELF' + b'\0' * 100]))
            what = 'garbage left for the binary of %s' % m.name
        elif x < 0.92:
            put(os.path.join(m.dir, '.rendered.%s.cpp' % m.last), R.choice(['', '#error left over\n', m.text().replace(str(m.version), '111')]))
            put(m.so + '.lock', '')
            what = 'left-over files for %s' % m.name
        elif x < 0.96:
            v = R.randrange(1000)
            i = R.randrange(2)
            self.extra[i] = v
            put(os.path.join(self.extra_dirs[i], 'extra_dep.hpp'), '#define EXTRA %d\n' % v)
            what = 'extra header edited'
        else:
            for f in os.listdir(m.dir):
                if f.endswith('.so'):
                    os.remove(os.path.join(m.dir, f))
            what = 'binaries of %s removed' % m.name
        m.write()
        ev(what.split(' of ')[0] if ' of ' in what else what.split(' ')[-1] if 'broken' not in what else 'modules broken')
        if m.kind != 'binding' and m.value() != before:
            ev('modules whose behaviour changed')
        return what

    # --- what is expected

    def expect(self, m, extra):
        """The outcome of importing it now: a value or the sort of failure"""
        if m.kind == 'extra' and extra is None:
            return 'ImportError'
        if m.broken:
            return 'ValueError' if m.broken == 'init' else 'ImportError'
        if m.imports:
            e = self.expect(m.other, extra)
            if isinstance(e, str):
                return e
        return m.value()

    def child(self, steps, hook=True):
        self.runs += 1
        base = os.path.join(self.root, '..', 'run%d' % self.runs)
        with open(base + '.json', 'w') as f:
            json.dump(steps, f)
        try:
            p = subprocess.run([sys.executable, '-B', CHILD, base + '.json', base + '.out'], cwd=self.root if R.random() < 0.5 else '/', stdin=subprocess.DEVNULL,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300,
                               env=dict(os.environ, PYTHONPATH=os.environ['PYTHONPATH'] + ':' + self.root + ':/nonexistent/path:' + self.zip, **ENVS[self.runs % len(ENVS)]))
        except subprocess.TimeoutExpired:
            must(False, 'hang', 'the interpreter did not end')
        if not os.path.exists(base + '.out'):
            must(False, 'crash', lambda: 'the interpreter ended with code %d: %s' % (p.returncode, p.stderr.decode('utf-8', 'replace')[-400:]))
        with open(base + '.out') as f:
            out = json.load(f)
        for e in ('.json', '.out'):
            os.remove(base + e)
        ev('interpreters')
        return out

    def session(self):
        """Edits, then imports of C++ modules in an interpreter with the hook"""
        self.history = [self.disturb() for _ in range(R.choice([1, 2, 3]))]
        ms = R.sample(list(self.mods.values()), min(len(self.mods), R.choice([1, 2, 2, 3])))
        steps, want = [['unpadded']], [True]
        extra = None
        if any(m.kind == 'extra' for m in ms) and R.random() < 0.8:
            extra = R.choice([0, 1])
            for _ in range(R.choice([0, 0, 1, 2])):  # only the last call counts
                steps.append(['extra', R.choice([[self.extra_dirs[1 - extra]], [self.extra_dirs[1 - extra], self.extra_dirs[extra]], [], ['/nonexistent'], [self.root]])])
                want.append(None)
                ev('extra directories which are replaced')
            dirs = [self.extra_dirs[extra]] + ([self.extra_dirs[1 - extra]] if R.random() < 0.5 else [])
            steps.append(['extra', dirs])
            want.append(None)
        done = {}
        for m in ms:
            e = done[m.name] if m.name in done else self.expect(m, extra)
            if R.random() < 0.4:
                name = R.choice(['json', 'py_a', 'pk', 'no_such_module', 'shadow'])
                steps.append(['look', name])
                want.append(('ordinary', name))
            if '.' in m.name and R.random() < 0.3:
                steps.append(['from'] + m.name.rsplit('.', 1))
                want.append(('from', m, e))
            steps.append(['import', m.name])
            want.append(('module', m, e, None if extra is None else self.extra[extra]))
            if not isinstance(e, str):
                done[m.name] = e
                if m.imports:
                    done[m.other.name] = m.other.value()
            if isinstance(e, str) and R.random() < 0.6 and m.broken not in (None, 'init') and not m.imports and (m.kind != 'extra' or extra is not None):  # mended, then tried again
                m.broken = None
                steps.append(['write', m.cpp, m.text()])
                want.append(None)
                steps.append(['write', m.header, '#pragma once\n#define DEP %d\n' % m.dep])
                want.append(None)
                steps.append(['import', m.name])
                want.append(('module', m, m.value(), None if extra is None else self.extra[extra]))
                done[m.name] = m.value()
                self.history.append('%s mended and imported again' % m.name)
            elif R.random() < 0.2 and not isinstance(e, str):
                steps.append(['import', m.name])
                want.append(('module', m, e, None if extra is None else self.extra[extra]))
        what = '%s; then %s' % ('; '.join(self.history), ' '.join(' '.join(map(str, s[:2])) for s in steps if s[0] != 'write'))
        case(what)
        out = self.child(steps)
        for s, w, o in zip(steps, want, out):
            mon.Stats.evaluations += 1
            if w is True:
                must(o.get('ok') is True, 'package', lambda: 'importing the package gave %r' % o)
            elif w and w[0] == 'module':
                m, e = w[1], w[2]
                self.judge(m, e, o, w[3])
                mon.distinct(m.kind, m.broken, isinstance(e, str) and e, tuple(h.split(' ')[0] + h.split(' ')[-1] for h in self.history))
            elif w and w[0] == 'from':
                if isinstance(w[2], str):
                    must('error' in o, 'failure', lambda: 'from ... import gave %r for a module which does not build' % o)
                else:
                    must(o.get('ok') == w[2], 'stale', lambda: 'from ... import gave %r instead of %r' % (o, w[2]))
            elif w and w[0] == 'ordinary':
                if w[1] == 'no_such_module':
                    must(o.get('error') == 'ModuleNotFoundError' and o.get('name') == w[1], 'ordinary', lambda: 'importing a missing module gave %r' % o)
                else:
                    must('ok' in o, 'ordinary', lambda: 'importing %s gave %r' % (w[1], o))
        for m in ms:
            if os.path.exists(m.so) and not m.broken and R.random() < 0.4 and len(m.archive) < 6:
                keep = os.path.join(self.root, '..', 'archive-%s-%d' % (m.last, len(m.archive)))
                shutil.copy(m.so, keep)
                m.archive.append(keep)
        mon.sample(what)

    def judge(self, m, e, o, extra):
        if isinstance(e, str):
            must('error' in o, 'failure', lambda: 'a module which fails to build was imported: %r' % o)
            must(e in o['mro'] or (m.imports and 'ImportError' in o['mro']), 'failure', lambda: 'a module which fails to build (%s) raised %s: %s' % (m.broken, o['error'], o['text']))
            ev('imports which fail')
            return
        must('ok' in o, 'import', lambda: '%s could not be imported: %s' % (m.name, o.get('text')))
        o = o['ok']
        must(o.get('value') == e, 'stale', lambda: '%s has the behaviour of %r instead of %r' % (m.name, o.get('value'), e))
        if m.kind == 'extra':
            must(o.get('extra') == extra, 'stale', lambda: 'the extra header is worth %r instead of %r' % (o.get('extra'), extra))
        must(o['same'] and o.get('attribute', True) and o['name'] == m.name.split('.')[-1] or o['name'] == m.name, 'twice', lambda: 'importing twice: %r' % o)
        must(o['same'] and o.get('attribute', True), 'twice', lambda: 'importing twice did not give the same module: %r' % o)
        if m.kind != 'binding':
            must(o.get('inits') == 1, 'twice', lambda: '%s was initialized %r times' % (m.name, o.get('inits')))
        for x in m.asks:
            where = o['asked'].get(x)
            must(where is not None and (os.path.realpath(where) == os.path.realpath(os.path.join(self.root, x + '.py')) if x == 'helper_mod' else
                                        os.path.realpath(where) == os.path.realpath(os.path.join(STDLIB, x + '.py'))),
                 'hidden', lambda: '%s imports %s, and gets %s' % (m.name, x, where))
            ev('ordinary modules imported by C++ modules')
        ev('imports of current modules')

    def differential(self):
        """Other modules, with and without the hook"""
        names = R.sample(self.ordinary, 12) + R.sample(STD, 6)
        R.shuffle(names)
        steps = []
        trouble = R.choice(['', '', 'lost', 'nobody'])
        fresh = os.path.join(self.root, '..', 'gone%d' % self.runs)
        if trouble == 'lost':
            steps.append(['lost', fresh])
        elif trouble == 'nobody':
            os.chmod(os.path.dirname(os.path.dirname(self.root)), 0o755)
            steps.append(['nobody', fresh])
        elif R.random() < 0.3:
            steps.append(['path', self.zip])
        for n in names:
            steps.append([R.choice(['look', 'look', 'find', 'import']), n])
            if R.random() < 0.15:
                steps.append(['reload', n])
        case('%s; ' % trouble + ' '.join(' '.join(s) for s in steps))
        if trouble == 'nobody':
            steps.append(['root'])
        with_hook = self.child([['unpadded']] + steps)[1:]
        if trouble == 'nobody':
            shutil.rmtree(fresh, ignore_errors=True)
        self.runs += len(ENVS) - 1
        without = self.child([['look', 'setuptools']] + steps)[1:]
        if trouble == 'nobody':
            shutil.rmtree(fresh, ignore_errors=True)
        for s, a, b in zip(steps, with_hook, without):
            mon.Stats.evaluations += 1
            must(a == b, 'ordinary', lambda: '%s gives with the hook %s and without %s' % (' '.join(s), brief(a, b), brief(b, a)))
            ev('imports of other modules with and without the hook')
            mon.distinct('d', trouble, tuple(s))


def brief(a, b):
    if 'ok' in a and 'ok' in b and isinstance(a['ok'], dict) and isinstance(b['ok'], dict):
        return repr({k: v for k, v in a['ok'].items() if b['ok'].get(k) != v})[:300]
    return repr(a)[:300]


ENVS = [{}, {}, {'CC': 'gcc', 'CXX': 'g++'}, {'CC': 'x86_64-linux-gnu-gcc'}]


def main():
    kinds = mon.opt.part.split(',')
    w = Workspace(os.path.join(mon.opt.dir, 'space', 'modules'), kinds)
    for i in range(int(12 * mon.opt.scale) or 1):
        try:
            w.session()
        except mon.Abandon:
            pass
        if i % 2 == 0:
            try:
                w.differential()
            except mon.Abandon:
                pass
    mon.finish()


main()
