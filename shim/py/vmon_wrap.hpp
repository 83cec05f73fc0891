// What the generated wrappers of the stand-in of cpp2py share.
#pragma once
#include <cpp2py/cpp2py.hpp>
#include <nda_py/cpp2py_converters.hpp>
#include <h5/h5.hpp>
#include <hdf5.h>

namespace vw {
  using namespace cpp2py;
  using overload = PyObject *(*)(PyObject *, PyObject *, PyObject *, bool &);

  // positional and keyword arguments to the parameters; false if they do not fit
  inline bool bind(PyObject *args, PyObject *kw, int n, const char *const *names, int required, PyObject **a) {
    auto fail = [](std::string const &s) {
      PyErr_SetString(PyExc_TypeError, s.c_str());
      return false;
    };
    Py_ssize_t np = args ? PyTuple_GET_SIZE(args) : 0;
    if (np > n) return fail("too many arguments");
    for (int i = 0; i < np; ++i) a[i] = PyTuple_GET_ITEM(args, i);
    if (kw) {
      PyObject *k, *v;
      Py_ssize_t p = 0;
      while (PyDict_Next(kw, &p, &k, &v)) {
        std::string s = PyUnicode_AsUTF8(k);
        int j         = 0;
        while (j < n and s != names[j]) ++j;
        if (j == n) return fail("unexpected argument " + s);
        if (a[j]) return fail("argument given twice: " + s);
        a[j] = v;
      }
    }
    for (int i = 0; i < required; ++i)
      if (!a[i]) return fail(std::string("missing argument ") + names[i]);
    return true;
  }

  // calls per overload, for the evidence
  inline std::map<std::string, long> &calls() {
    static std::map<std::string, long> m;
    return m;
  }

  inline PyObject *dispatch(PyObject *self, PyObject *args, PyObject *kw, std::initializer_list<overload> ovs, const char *name) {
    std::string why;
    int n = 0;
    for (auto f : ovs) {
      bool matched = false;
      PyObject *r  = f(self, args, kw, matched);
      if (matched) {
        ++calls()[std::string(name) + "#" + std::to_string(n) + (r ? "" : " raised")];
        return r;
      }
      ++n;
      PyObject *t, *v, *b;
      PyErr_Fetch(&t, &v, &b);
      if (v) {
        pyref s = PyObject_Str(v);
        if (s) why += std::string("\n  ") + PyUnicode_AsUTF8(s);
      }
      Py_XDECREF(t);
      Py_XDECREF(v);
      Py_XDECREF(b);
    }
    PyErr_SetString(PyExc_TypeError, (std::string("no overload of ") + name + " takes these arguments:" + why).c_str());
    return nullptr;
  }

  // views in a result live as long as the result and self
  template <typename T> PyObject *ret(T &&x, PyObject *self) {
    using U = std::decay_t<T>;
    if constexpr (std::is_arithmetic_v<U> or std::is_pointer_v<U> or std::is_same_v<U, std::string> or std::is_same_v<U, pyref>)
      return convert_to_python(U(std::forward<T>(x)));
    else {
      auto *p       = new U(std::forward<T>(x));
      pyref c       = capsule(p);
      pyref k       = self ? pyref(PyTuple_Pack(2, (PyObject *)c, self)) : c;
      PyObject *old = std::exchange(keep(), (PyObject *)k);
      PyObject *r   = nullptr;
      try {
        r = convert_to_python(*p);
      } catch (...) {
        keep() = old;
        throw;
      }
      keep() = old;
      return r;
    }
  }

  template <typename F> PyObject *guard(F f) {
    try {
      return f();
    } catch (std::exception const &e) { PyErr_SetString(PyExc_RuntimeError, e.what()); } catch (const char *e) {
      PyErr_SetString(PyExc_RuntimeError, e);
    } catch (...) { PyErr_SetString(PyExc_RuntimeError, "unknown C++ exception"); }
    return nullptr;
  }

  template <typename T> T &self_of(PyObject *self) {
    auto *p = ((wrapped<T> *)self)->_c;
    if (!p) throw std::runtime_error("the object was not initialised");
    return *p;
  }
  template <typename T> void dealloc(PyObject *self) {
    auto *t = Py_TYPE(self);
    delete ((wrapped<T> *)self)->_c;
    t->tp_free(self);
    Py_DECREF(t);
  }
  template <typename T> void set(PyObject *self, T &&x) {
    auto *q = (wrapped<std::decay_t<T>> *)self;
    auto *n = new std::decay_t<T>(std::forward<T>(x));
    delete q->_c;
    q->_c = n;
  }
  template <typename T> PyObject *str(PyObject *self) {
    return guard([&] {
      std::stringstream ss;
      ss << self_of<T>(self);
      return convert_to_python(ss.str());
    });
  }
  template <typename T, bool NE> PyObject *compare(PyObject *a, PyObject *b, int op) {
    if ((op != Py_EQ and !(NE and op == Py_NE)) or !py_converter<T>::is_convertible(a, false) or !py_converter<T>::is_convertible(b, false)) Py_RETURN_NOTIMPLEMENTED;
    return guard([&] {
      if constexpr (NE)
        return convert_to_python(op == Py_EQ ? bool(self_of<T>(a) == self_of<T>(b)) : bool(self_of<T>(a) != self_of<T>(b)));
      else
        return convert_to_python(bool(self_of<T>(a) == self_of<T>(b)));
    });
  }
  template <typename T> PyObject *iter(PyObject *self) {
    return guard([&]() -> PyObject * {
      pyref l = PyList_New(0);
      for (auto &&x : self_of<T>(self)) {
        pyref y = convert_to_python(x);
        if (y.is_null() or PyList_Append(l, y)) return nullptr;
      }
      return PyObject_GetIter(l);
    });
  }
  template <typename T, typename As> PyObject *iter_as(PyObject *self) {
    return guard([&]() -> PyObject * {
      pyref l = PyList_New(0);
      for (auto &&x : self_of<T>(self)) {
        pyref y = convert_to_python(As(x));
        if (y.is_null() or PyList_Append(l, y)) return nullptr;
      }
      return PyObject_GetIter(l);
    });
  }
  template <typename T> PyObject *copy(PyObject *self, PyObject *) {
    return guard([&] { return convert_to_python(T(self_of<T>(self))); });
  }
  template <typename T> PyObject *copy_from(PyObject *self, PyObject *o) {
    if (!py_converter<T>::is_convertible(o, true)) return nullptr;
    return guard([&]() -> PyObject * {
      self_of<T>(self) = self_of<T>(o);
      Py_RETURN_NONE;
    });
  }
  // operators: (T, T), (T, scalar), (scalar, T)
  template <typename T, typename S, bool Mixed, typename F> PyObject *binary(PyObject *a, PyObject *b, F f) {
    bool ta = py_converter<T>::is_convertible(a, false), tb = py_converter<T>::is_convertible(b, false);
    return guard([&]() -> PyObject * {
      if constexpr (requires(T const &t) { f(t, t); })
        if (ta and tb) return convert_to_python(T(f(self_of<T>(a), self_of<T>(b))));
      if constexpr (Mixed) {
        if constexpr (requires(T const &t, S const &s) { f(t, s); })
          if (ta and py_converter<S>::is_convertible(b, false)) return convert_to_python(T(f(self_of<T>(a), py_converter<S>::py2c(b))));
        if constexpr (requires(T const &t, S const &s) { f(s, t); })
          if (tb and py_converter<S>::is_convertible(a, false)) return convert_to_python(T(f(py_converter<S>::py2c(a), self_of<T>(b))));
      }
      Py_RETURN_NOTIMPLEMENTED;
    });
  }
  // pickling through an image of an HDF5 file
  template <typename T> PyObject *h5_dump(PyObject *self) {
    return guard([&]() -> PyObject * {
      h5::file f{};
      h5::group g{f};
      h5_write(g, "x", self_of<T>(self));
      f.flush();
      ssize_t n = H5Fget_file_image(hid_t(f), nullptr, 0);
      std::vector<char> b(n);
      H5Fget_file_image(hid_t(f), b.data(), n);
      return PyBytes_FromStringAndSize(b.data(), n);
    });
  }
  template <typename T> PyObject *h5_load(PyObject *bytes) {
    return guard([&]() -> PyObject * {
      pyref os = pyref::module("tempfile").attr("mktemp")(PyUnicode_FromString(".h5"), PyUnicode_FromString("x01"));
      std::string name = PyUnicode_AsUTF8(os);
      FILE *q          = fopen(name.c_str(), "wb");
      fwrite(PyBytes_AS_STRING(bytes), 1, PyBytes_GET_SIZE(bytes), q);
      fclose(q);
      T x{};
      {
        h5::file f{name, 'r'};
        h5::group g{f};
        h5_read(g, "x", x);
      }
      remove(name.c_str());
      return convert_to_python(std::move(x));
    });
  }
} // namespace vw
