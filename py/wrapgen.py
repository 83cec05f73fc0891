"""Stand-in of cpp2py.wrap_generator: executes the *_desc.py files of the tree under test and writes the C++ of the extension modules.

wrapgen.py REPO OUTDIR PARTS KEEP desc...      KEEP: regular expression; overloads whose text matches it are left out"""
import json, os, re, sys, types

KW = {'int', 'long', 'double', 'bool', 'unsigned', 'char', 'void'}
DROP = None
MODULES = []
SEEN = []


def split(s, sep=','):
    out, depth, cur = [], 0, ''
    for ch in s:
        if ch in '<([{':
            depth += 1
        elif ch in '>)]}':
            depth -= 1
        if ch == sep and depth == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur)
    return [x.strip() for x in out]


def last_word(s):
    """'gf<a, b> name' -> ('gf<a, b>', 'name'); ('gf<a>', None) when there is one word only"""
    depth = 0
    for k in range(len(s) - 1, -1, -1):
        ch = s[k]
        if ch in '>)':
            depth += 1
        elif ch in '<(':
            depth -= 1
        elif depth == 0 and (ch.isspace() or ch in '*&'):
            a, b = s[:k + 1].strip(), s[k + 1:].strip()
            if not b or b in KW:
                return s.strip(), None
            return a, b
    return s.strip(), None


class Sig:
    """rtype name(args)"""

    def __init__(self, text, calling=None, name=None):
        text = text.strip()
        self.text, self.calling = text, calling
        assert text.endswith(')'), text
        depth = 0
        for k in range(len(text) - 1, -1, -1):
            depth += (text[k] == ')') - (text[k] == '(')
            if depth == 0:
                break
        head = text[:k].strip()
        self.rtype, self.cname = last_word(head) if head else (None, None)
        if head.endswith('operator'):                 # operator()(...)
            self.rtype, self.cname = last_word(head)
        if self.cname is None:
            self.cname = name
        self.args = []
        for a in split(text[k + 1:-1]):
            a, _, d = a.partition('=')
            t, n = last_word(a.strip())
            assert n, (text, a)
            self.args.append((t, n, d.strip() or None))


class cfunction:
    def __init__(self, signature=None, calling_pattern=None, doc='', name=None):
        self.signature, self.calling = signature, calling_pattern


class pyfunction:
    def __init__(self, name, arity=None, **k):
        self.name, self.overloads, self.treat_as_inplace = name, [], False

    def add_overload(self, calling_pattern=None, signature=None, **k):
        self.overloads.append((calling_pattern, signature))


class class_:
    def __init__(self, py_type, c_type, c_type_absolute=None, hdf5=False, serializable=None, is_printable=False, comparisons='', arithmetic=(), doc='', export=True, **k):
        self.py, self.c, self.abs, self.ser, self.printable, self.cmp = py_type, c_type, re.sub(r'^triqs::\w+::(?=triqs::)', '', c_type_absolute or c_type), serializable, is_printable, comparisons.split()
        self.arith = (arithmetic,) if isinstance(arithmetic, str) else arithmetic
        self.export, self.doc = export, doc
        self.ctors, self.methods, self.props, self.calls, self.items, self.len, self.iter, self.extra, self.number_protocol = [], {}, [], [], [], None, None, [], {}

    def add_constructor(self, signature, calling_pattern=None, doc=''):
        self.ctors.append(Sig(signature, calling_pattern))

    def add_method(self, signature, name=None, calling_pattern=None, doc='', **k):
        s = Sig(signature, calling_pattern, name)
        self.methods.setdefault(name or s.cname, []).append(s)

    def add_property(self, getter, name=None, setter=None, doc=''):
        s = Sig(getter.signature, getter.calling, name)
        self.props.append((name or s.cname, s))

    def add_call(self, signature, calling_pattern=None, doc=''):
        self.calls.append(Sig(signature, calling_pattern, 'operator()'))

    def add_getitem(self, signature, calling_pattern=None, doc=''):
        self.items.append(Sig(signature, calling_pattern, 'operator[]'))

    def add_len(self, calling_pattern=None, doc=''):
        self.len = calling_pattern or 'auto result = self_c.size()'

    def add_iterator(self, c_cast_type=None, **k):
        self.iter = c_cast_type or True

    def add_method_copy(self):
        self.extra.append('copy')

    def add_method_copy_from(self):
        self.extra.append('copy_from')


class module_:
    def __init__(self, full_name, doc='', app_name=None):
        self.name, self.includes, self.using, self.preamble, self.imports, self.classes, self.functions = full_name, [], [], [], [], [], {}
        MODULES.append(self)

    def add_include(self, *i):
        self.includes += i

    def add_using(self, *u):
        self.using += u

    def add_preamble(self, p):
        self.preamble.append(p)

    def add_imports(self, *i):
        self.imports += i

    def add_enum(self, *a, **k):
        pass

    def add_class(self, c):
        if not DROP or not re.search(DROP, c.abs):
            self.classes.append(c)

    def add_function(self, signature, name=None, calling_pattern=None, doc='', **k):
        s = Sig(signature, calling_pattern, name)
        if not DROP or not re.search(DROP, signature):
            self.functions.setdefault(name or s.cname.split('::')[-1], []).append(s)

    def generate_code(self):
        pass


def mangle(s):
    return re.sub(r'\W', '_', s)


def wrapper(fn, sig, cls=None, kind='function'):
    """one overload: PyObject *fn(self, args, kw, matched)"""
    n = len(sig.args)
    o = ['PyObject *%s(PyObject *self, PyObject *args, PyObject *kw, bool &matched_) {' % fn]
    if n:
        o.append('  static const char *const names_[] = {%s};' % ', '.join('"%s"' % a[1] for a in sig.args))
    o.append('  PyObject *a_[%d] = {};' % (n + 1))
    o.append('  if (!vw::bind(args, kw, %d, %s, %d, a_)) return nullptr;' % (n, 'names_' if n else 'nullptr', sum(a[2] is None for a in sig.args)))
    for k, (t, nm, d) in enumerate(sig.args):
        o.append('  using T%d_ = std::remove_cvref_t<%s>;' % (k, t))
        o.append('  if (a_[%d] && !py_converter<T%d_>::is_convertible(a_[%d], true)) return nullptr;' % (k, k, k))
    o += ['  matched_ = true;', '  return vw::guard([&]() -> PyObject * {']
    for k, (t, nm, d) in enumerate(sig.args):
        o.append('    std::optional<T%d_> o%d_;' % (k, k))
        if d is None:
            o.append('    o%d_.emplace(py_converter<T%d_>::py2c(a_[%d]));' % (k, k, k))
        else:
            o.append('    if (a_[%d]) o%d_.emplace(py_converter<T%d_>::py2c(a_[%d])); else { T%d_ d_ = %s; o%d_.emplace(d_); }' % (k, k, k, k, k, d, k))
        o.append('    auto &%s = *o%d_;' % (nm, k))
    if cls and kind != 'ctor':
        o.append('    auto &self_c = vw::self_of<%s>(self); (void)self_c;' % cls.abs)
    names = ', '.join(a[1] for a in sig.args)
    if kind == 'ctor':
        o.append('    %s;' % sig.calling if sig.calling else '    auto result = %s(%s);' % (cls.abs, names))
        o += ['    vw::set(self, std::move(result));', '    Py_RETURN_NONE;']
    else:
        void = sig.rtype == 'void'
        if sig.calling:
            body = sig.calling
            void = void or 'result' not in body
        else:
            call = {'function': lambda: '%s(%s)' % (sig.cname, names), 'method': lambda: 'self_c.%s(%s)' % (sig.cname.split('::')[-1], names),
                    'call': lambda: 'self_c(%s)' % names, 'item': lambda: 'self_c[%s]' % names}[kind]()
            body = call if void else 'auto result = ' + call
        o.append('    %s;' % body)
        o.append('    Py_RETURN_NONE;' if void else '    return vw::ret(std::move(result), %s);' % ('self' if cls else 'nullptr'))
    o += ['  });', '}']
    return '\n'.join(o)


def gen(m, out, parts, common):
    pre = ['#include "%s"' % common] + ['#include %s' % i for i in m.includes] + ['using namespace cpp2py;'] + ['using %s;' % u for u in m.using] + m.preamble
    local = [c for c in m.classes if not c.export]
    pre += ['namespace cpp2py { template <> struct py_converter<%s> : wrapped_converter<%s> {}; }' % (c.abs, c.abs) for c in local]
    M = mangle(m.name)
    units, decl, main = [], [], []

    def disp(name, sigs, cls=None, kind='function'):
        fs = []
        for k, s in enumerate(sigs):
            f = 'w_%s_%s_%s_%d' % (M, mangle(cls.py) if cls else '', mangle(name), k)
            units.append(wrapper(f, s, cls, kind))
            decl.append('PyObject *%s(PyObject *, PyObject *, PyObject *, bool &);' % f)
            fs.append(f)
        d = 'd_%s_%s_%s' % (M, mangle(cls.py) if cls else '', mangle(name))
        main.append('static PyObject *%s(PyObject *self, PyObject *args, PyObject *kw) { return vw::dispatch(self, args, kw, {%s}, "%s"); }' % (d, ', '.join(fs), (cls.py if cls else m.name.split('.')[-1]) + '.' + name))
        SEEN.extend((cls.py if cls else m.name.split('.')[-1]) + '.' + name + '#%d' % k for k in range(len(sigs)))
        return d

    init = []
    for c in m.classes:
        T, P = c.abs, mangle(c.py)
        slots, meths, props = [], [], []
        if c.ctors:
            d = disp('init', c.ctors, c, 'ctor')
            main.append('static int i_%s(PyObject *s, PyObject *a, PyObject *k) { PyObject *r = %s(s, a, k); if (!r) return -1; Py_DECREF(r); return 0; }' % (P, d))
            slots += [('Py_tp_init', 'i_' + P), ('Py_tp_new', 'PyType_GenericNew')]
        slots.append(('Py_tp_dealloc', 'vw::dealloc<%s>' % T))
        for n, sg in c.methods.items():
            meths.append((n, '(PyCFunction)(void *)%s' % disp('m_' + n, sg, c, 'method'), 'METH_VARARGS | METH_KEYWORDS'))
        for n, s in c.props:
            if s.calling is None:
                k = 'method'
            elif s.args:                                # a function of the object itself
                s.args, k = [], 'method'
            else:
                k = 'method'
            d = disp('p_' + n, [s], c, k)
            main.append('static PyObject *g_%s(PyObject *s, void *) { pyref t = PyTuple_New(0); return %s(s, t, nullptr); }' % (P + '_' + n, d))
            props.append((n, 'g_%s_%s' % (P, n)))
        if c.calls:
            slots.append(('Py_tp_call', disp('call', c.calls, c, 'call')))
        if c.items:
            d = disp('item', c.items, c, 'item')
            main.append('static PyObject *it_%s(PyObject *s, PyObject *x) { pyref t = PyTuple_Pack(1, x); return %s(s, t, nullptr); }' % (P, d))
            slots.append(('Py_mp_subscript', 'it_' + P))
        if c.len:
            main.append('static Py_ssize_t l_%s(PyObject *self) { auto &self_c = vw::self_of<%s>(self); %s; return result; }' % (P, T, c.len))
            slots.append(('Py_mp_length', 'l_' + P))
        if c.iter:
            slots.append(('Py_tp_iter', 'vw::iter<%s>' % T if c.iter is True else '(vw::iter_as<%s, %s>)' % (T, c.iter)))
        if c.printable:
            slots += [('Py_tp_str', 'vw::str<%s>' % T), ('Py_tp_repr', 'vw::str<%s>' % T)]
        if c.cmp:
            slots.append(('Py_tp_richcompare', '(vw::compare<%s, %s>)' % (T, 'true' if '!=' in c.cmp else 'false')))
        for e in c.extra:
            meths.append((e, 'vw::%s<%s>' % (e, T), 'METH_NOARGS' if e == 'copy' else 'METH_O'))
        if c.ser:
            how = 'pyref(PyObject_Repr(s))' if c.ser == 'repr' else 'pyref(vw::h5_dump<%s>(s))' % T
            if c.ser == 'repr':
                load = 'pyref d = pyref::module("%s").attr("__dict__"); return PyRun_String(PyUnicode_AsUTF8(x), Py_eval_input, d, d);' % m.name
            else:
                load = 'return vw::h5_load<%s>(x);' % T
            main.append('static PyObject *u_%s(PyObject *, PyObject *x) { %s }' % (P, load))
            main.append('static PyObject *r_%s(PyObject *s, PyObject *) { pyref b = %s; if (b.is_null()) return nullptr; pyref t = PyTuple_Pack(1, (PyObject *)b); '
                        'pyref f = pyref::module("%s").attr("_rebuild_%s"); return f.is_null() ? nullptr : PyTuple_Pack(2, (PyObject *)f, (PyObject *)t); }' % (P, how, m.name, P))
            meths.append(('__reduce__', 'r_' + P, 'METH_NOARGS'))
            m.functions.setdefault('_rebuild_' + P, 'u_' + P)
        if c.arith:
            S = 'triqs::utility::real_or_complex' if 'real_or_complex' in c.arith else 'double'
            ops = [('add', '+', 'with_unit' in c.arith)]
            if 'algebra' in c.arith:
                ops += [('subtract', '-', 'with_unit' in c.arith), ('multiply', '*', True)]
                main.append('static PyObject *b_%s_div(PyObject *a, PyObject *b) { return vw::binary<%s, %s, true>(a, b, [](auto const &x, auto const &y) requires(std::is_same_v<std::decay_t<decltype(y)>, %s>) { return x / y; }); }' % (P, T, S, S))
                slots.append(('Py_nb_true_divide', 'b_%s_div' % P))
            for n, op, mixed in ops:
                main.append('static PyObject *b_%s_%s(PyObject *a, PyObject *b) { return vw::binary<%s, %s, %s>(a, b, [](auto const &x, auto const &y) requires requires { x %s y; } { return x %s y; }); }' % (P, n, T, S, 'true' if mixed else 'false', op, op))
                slots.append(('Py_nb_' + n, 'b_%s_%s' % (P, n)))
            if 'with_unary_minus' in c.arith:
                main.append('static PyObject *b_%s_neg(PyObject *a) { return vw::guard([&] { return convert_to_python(%s(-vw::self_of<%s>(a))); }); }' % (P, T, T))
                slots.append(('Py_nb_negative', 'b_%s_neg' % P))
        for n, f in c.number_protocol.items():
            assert f.treat_as_inplace and len(f.overloads) == 1
            op, sg = f.overloads[0]
            s = Sig(sg)
            main.append('static PyObject *b_%s_%s(PyObject *a, PyObject *b) { if (!py_converter<%s>::is_convertible(a, false) || !py_converter<%s>::is_convertible(b, false)) Py_RETURN_NOTIMPLEMENTED; '
                        'return vw::guard([&]() -> PyObject * { vw::self_of<%s>(a) %s py_converter<%s>::py2c(b); Py_INCREF(a); return a; }); }' % (P, n, T, s.args[1][0], T, op, s.args[1][0]))
            slots.append(('Py_nb_' + n, 'b_%s_%s' % (P, n)))
        main.append('static PyMethodDef M_%s[] = {%s{nullptr}};' % (P, ''.join('{"%s", (PyCFunction)%s, %s}, ' % (n, f, fl) for n, f, fl in meths)))
        main.append('static PyGetSetDef G_%s[] = {%s{nullptr}};' % (P, ''.join('{"%s", %s}, ' % p for p in props)))
        if c.doc:
            slots.append(('Py_tp_doc', json.dumps(c.doc)))
        slots += [('Py_tp_methods', 'M_' + P), ('Py_tp_getset', 'G_' + P)]
        main.append('static PyType_Slot S_%s[] = {%s{0, nullptr}};' % (P, ''.join('{%s, (void *)%s}, ' % s for s in slots)))
        main.append('static PyType_Spec Y_%s = {"%s.%s", sizeof(wrapped<%s>), 0, Py_TPFLAGS_DEFAULT | Py_TPFLAGS_BASETYPE, S_%s};' % (P, m.name, c.py, T, P))
        init.append('  wrapped_type<%s>() = (PyTypeObject *)PyType_FromSpec(&Y_%s); if (!wrapped_type<%s>()) return nullptr;' % (T, P, T))
        init.append('  Py_INCREF((wrapped_type<%s>())); PyModule_AddObject(m, "%s", (PyObject *)wrapped_type<%s>());' % (T, c.py, T))
    fns = []
    for n, sg in m.functions.items():
        if isinstance(sg, str):
            fns.append('{"%s", (PyCFunction)%s, METH_O}, ' % (n, sg))
        else:
            fns.append('{"%s", (PyCFunction)(void *)%s, METH_VARARGS | METH_KEYWORDS}, ' % (n, disp('f_' + n, sg)))
    main.append('static PyMethodDef F_[] = {%s{nullptr}};' % ''.join(fns))
    main.append('static PyModuleDef D_ = {PyModuleDef_HEAD_INIT, "%s", nullptr, -1, F_};' % m.name)
    main.append('extern "C" PyObject *PyInit_vx_%s() {\n  PyObject *m = PyModule_Create(&D_); if (!m) return nullptr;' % M)
    main += ['  if (pyref(PyImport_ImportModule("%s")).is_null()) return nullptr;' % i for i in m.imports if i != 'triqs.operators']
    main += init + ['  return m;', '}']
    head = '\n'.join(pre) + '\n'
    files = []

    def put(name, text):
        f = os.path.join(out, '%s_%s.cpp' % (M, name))
        with open(f, 'w') as q:
            q.write(head + text)
        files.append(f)
    if parts == 1:                                     # (a preamble may define things which exist only once)
        put('main', '\n'.join(units + main) + '\n')
        return files
    put('main', '\n'.join(decl) + '\n' + '\n'.join(main) + '\n')
    for p in range(min(parts, len(units))):
        put('p%d' % p, '\n'.join(units[p::parts]) + '\n')
    return files


def main():
    global DROP
    repo, out, parts, drop, descs = sys.argv[1], sys.argv[2], sys.argv[3], sys.argv[4], sys.argv[5:]
    DROP = drop or None
    mod = types.ModuleType('cpp2py.wrap_generator')
    for n in ('module_', 'class_', 'cfunction', 'pyfunction'):
        setattr(mod, n, globals()[n])
    sys.modules['cpp2py'] = types.ModuleType('cpp2py')
    sys.modules['cpp2py.wrap_generator'] = mod
    os.makedirs(out, exist_ok=True)
    for d in descs:
        p = os.path.join(repo, 'python', 'triqs', d)
        exec(compile(open(p).read(), p, 'exec'), {'__name__': '__main__', '__file__': p})
    for m in MODULES:
        if m.name == 'triqs.random_generator':         # the module is a member of a package of this name
            m.name = 'triqs.random_generator.random_generator'
    common = os.path.join(out, 'vx_common.hpp')
    inc = ['<triqs/arrays.hpp>', '<triqs/gfs.hpp>', '<triqs/mesh.hpp>', '<triqs/lattice/brillouin_zone.hpp>', '<triqs/lattice/tight_binding.hpp>', '<triqs/operators/many_body_operator.hpp>',
           '<triqs/mc_tools/random_generator.hpp>', '<triqs/stat/histograms.hpp>', '<triqs/atom_diag/atom_diag.hpp>', '<triqs/atom_diag/functions.hpp>', '<vmon_wrap.hpp>']
    with open(common, 'w') as f:
        f.write('#pragma once\n#include <vmon_wrap.hpp>\n' + ''.join('#include %s\n' % i for i in inc))
        f.write('namespace cpp2py {\n' + ''.join('template <> struct py_converter<%s> : wrapped_converter<%s> {};\n' % (c.abs, c.abs) for m in MODULES for c in m.classes if c.export) + '}\n')
        f.write('#include <triqs/cpp2py_converters.hpp>\n')
    files = []
    for m in MODULES:
        w = dict(kv.split('=') for kv in parts.split(','))
        files += gen(m, out, int(w.get(m.name.split('.')[-1], 1)), common)
    f = os.path.join(out, 'vx_interp.cpp')
    with open(f, 'w') as q:
        q.write('#define VMON_NUMPY_MAIN\n#include "%s"\n' % common)
        q.write(''.join('extern "C" PyObject *PyInit_vx_%s();\n' % mangle(m.name) for m in MODULES))
        q.write('static const char *const all_[] = {%s, nullptr};\n' % ', '.join('"%s"' % x for x in SEEN))
        q.write('static PyObject *np_calls(PyObject *, PyObject *) { PyObject *d = PyDict_New(); for (auto *p = all_; *p; ++p) PyDict_SetItemString(d, *p, pyref(PyLong_FromLong(0)));\n'
                '  for (auto &[k, v] : vw::calls()) PyDict_SetItemString(d, k.c_str(), pyref(PyLong_FromLong(v))); return d; }\n')
        q.write('static PyMethodDef np_fn[] = {{"calls", np_calls, METH_NOARGS, nullptr}, {nullptr}};\n')
        q.write('static PyModuleDef np_def = {PyModuleDef_HEAD_INIT, "vx_numpy", nullptr, -1, np_fn};\nstatic PyObject *np_init() { import_array(); return PyModule_Create(&np_def); }\n')
        q.write('int main(int argc, char **argv) {\n  PyImport_AppendInittab("vx_numpy", np_init);\n' + ''.join('  PyImport_AppendInittab("vx_%s", PyInit_vx_%s);\n' % (mangle(m.name), mangle(m.name)) for m in MODULES)
                + '  return Py_BytesMain(argc, argv);\n}\n')
    files.append(f)
    print('\n'.join(files))


main()
