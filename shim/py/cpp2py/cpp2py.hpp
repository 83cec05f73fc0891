// Stand-in of cpp2py: references to Python objects and the conversion of standard types.
#pragma once
#include <Python.h>
#include <array>
#include <complex>
#include <cstdint>
#include <exception>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <optional>
#include <sstream>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <variant>
#include <vector>

namespace cpp2py {
  class pyref {
    PyObject *ob = nullptr;

    public:
    pyref() = default;
    pyref(PyObject *new_ref) : ob(new_ref) {}
    pyref(pyref const &o) : ob(o.ob) { Py_XINCREF(ob); }
    pyref(pyref &&o) noexcept : ob(std::exchange(o.ob, nullptr)) {}
    pyref &operator=(pyref o) noexcept {
      std::swap(ob, o.ob);
      return *this;
    }
    ~pyref() {
      if (ob and Py_IsInitialized()) Py_DECREF(ob);
    }
    operator PyObject *() const { return ob; }
    PyObject *new_ref() const {
      Py_XINCREF(ob);
      return ob;
    }
    explicit operator bool() const { return ob != nullptr; }
    bool is_null() const { return ob == nullptr; }
    bool is_None() const { return ob == Py_None; }
    pyref attr(const char *s) const { return ob ? PyObject_GetAttrString(ob, s) : nullptr; }
    pyref operator()(PyObject *a) const { return ob ? PyObject_CallFunctionObjArgs(ob, a, nullptr) : nullptr; }
    pyref operator()(PyObject *a, PyObject *b) const { return ob ? PyObject_CallFunctionObjArgs(ob, a, b, nullptr) : nullptr; }
    static pyref module(std::string const &n) { return PyImport_ImportModule(n.c_str()); }
    static pyref string(std::string const &s) { return PyUnicode_FromString(s.c_str()); }
    static pyref get_class(const char *mod, const char *cls, bool raise_exception) {
      pyref c = module(mod).attr(cls);
      if (c.is_null() and raise_exception) PyErr_SetString(PyExc_TypeError, (std::string("Cannot find ") + mod + "." + cls).c_str());
      return c;
    }
    static bool check_is_instance(PyObject *o, PyObject *cls, bool raise_exception) {
      int i = PyObject_IsInstance(o, cls);
      if (i == -1) {
        if (!raise_exception) PyErr_Clear();
        return false;
      }
      if (i == 0 and raise_exception) PyErr_SetString(PyExc_TypeError, "The object does not have the type expected");
      return i == 1;
    }
    template <typename... T> static pyref make_tuple(T const &...x) { return PyTuple_Pack(sizeof...(T), static_cast<PyObject *>(x)...); }
  };
  inline pyref borrowed(PyObject *ob) {
    Py_XINCREF(ob);
    return {ob};
  }

  template <typename T> struct is_view : std::false_type {};
  template <typename T> struct py_converter;
  template <typename T> PyObject *convert_to_python(T &&x) { return py_converter<std::decay_t<T>>::c2py(std::forward<T>(x)); }
  template <typename T> decltype(auto) convert_from_python(PyObject *ob) { return py_converter<std::decay_t<T>>::py2c(ob); }
  template <typename T> bool convertible_from_python(PyObject *ob, bool raise_exception) { return py_converter<std::decay_t<T>>::is_convertible(ob, raise_exception); }

  inline bool no_conversion(bool raise_exception, const char *what) {
    if (PyErr_Occurred() and !raise_exception) PyErr_Clear();
    if (raise_exception) PyErr_SetString(PyExc_TypeError, (std::string("Cannot convert to ") + what).c_str());
    return false;
  }

  // the Python object on which the memory of views depends while a result is converted
  inline PyObject *&keep() {
    static PyObject *k = nullptr;
    return k;
  }

  template <> struct py_converter<PyObject *> {
    static PyObject *c2py(PyObject *o) { return o; }
    static PyObject *py2c(PyObject *o) { return o; }
    static bool is_convertible(PyObject *, bool) { return true; }
  };
  template <> struct py_converter<pyref> {
    static PyObject *c2py(pyref const &o) { return o.new_ref(); }
    static pyref py2c(PyObject *o) { return borrowed(o); }
    static bool is_convertible(PyObject *, bool) { return true; }
  };
  template <> struct py_converter<bool> {
    static PyObject *c2py(bool b) { return PyBool_FromLong(b); }
    static bool py2c(PyObject *o) { return PyObject_IsTrue(o) == 1; }
    static bool is_convertible(PyObject *o, bool r) {
      if (PyBool_Check(o) or std::string(Py_TYPE(o)->tp_name) == "numpy.bool_") return true;
      return no_conversion(r, "bool");
    }
  };
  template <typename I>
    requires(std::is_integral_v<I> and !std::is_same_v<I, bool>)
  struct py_converter<I> {
    static PyObject *c2py(I i) { return std::is_signed_v<I> ? PyLong_FromLongLong((long long)i) : PyLong_FromUnsignedLongLong((unsigned long long)i); }
    static I py2c(PyObject *o) {
      pyref n = PyNumber_Index(o);
      return std::is_signed_v<I> ? I(PyLong_AsLongLong(n)) : I(PyLong_AsUnsignedLongLong(n));
    }
    static bool is_convertible(PyObject *o, bool r) {
      if (!PyIndex_Check(o)) return no_conversion(r, "an integer");
      pyref n = PyNumber_Index(o); // (arrays have the slot, and refuse)
      if (n.is_null()) return no_conversion(r, "an integer");
      if constexpr (std::is_signed_v<I>) {
        long long v = PyLong_AsLongLong(n);
        if (PyErr_Occurred() or (long long)I(v) != v) return no_conversion(r, "an integer of this size");
      } else {
        unsigned long long v = PyLong_AsUnsignedLongLong(n);
        if (PyErr_Occurred() or (unsigned long long)I(v) != v) return no_conversion(r, "an unsigned integer of this size");
      }
      return true;
    }
  };
  inline bool is_np_scalar(PyObject *o, const char *kind) {
    std::string n = Py_TYPE(o)->tp_name;
    return n.starts_with(std::string("numpy.") + kind);
  }
  template <> struct py_converter<double> {
    static PyObject *c2py(double x) { return PyFloat_FromDouble(x); }
    static double py2c(PyObject *o) { return PyFloat_AsDouble(o); }
    static bool is_convertible(PyObject *o, bool r) {
      if (PyFloat_Check(o) or PyLong_Check(o) or is_np_scalar(o, "int") or is_np_scalar(o, "float") or is_np_scalar(o, "uint")) return true;
      return no_conversion(r, "double");
    }
  };
  template <> struct py_converter<std::complex<double>> {
    static PyObject *c2py(std::complex<double> x) { return PyComplex_FromDoubles(x.real(), x.imag()); }
    static std::complex<double> py2c(PyObject *o) {
      auto z = PyComplex_AsCComplex(o);
      return {z.real, z.imag};
    }
    static bool is_convertible(PyObject *o, bool r) {
      if (PyComplex_Check(o) or is_np_scalar(o, "complex") or py_converter<double>::is_convertible(o, false)) return true;
      return no_conversion(r, "complex");
    }
  };
  template <> struct py_converter<std::string> {
    static PyObject *c2py(std::string const &s) { return PyUnicode_FromStringAndSize(s.data(), s.size()); }
    static std::string py2c(PyObject *o) {
      Py_ssize_t n;
      const char *p = PyUnicode_AsUTF8AndSize(o, &n);
      return {p, size_t(n)};
    }
    static bool is_convertible(PyObject *o, bool r) { return PyUnicode_Check(o) ? true : no_conversion(r, "string"); }
  };
  template <> struct py_converter<std::string_view> {
    static PyObject *c2py(std::string_view s) { return PyUnicode_FromStringAndSize(s.data(), s.size()); }
  };
  template <> struct py_converter<const char *> {
    static PyObject *c2py(const char *s) { return PyUnicode_FromString(s); }
  };

  inline bool is_seq(PyObject *o) { return PySequence_Check(o) and !PyUnicode_Check(o) and !PyBytes_Check(o) and !PyDict_Check(o) and PySequence_Size(o) >= 0; }
  template <typename Range> PyObject *list_of(Range &&v) {
    pyref l = PyList_New(0);
    for (auto &&x : v) {
      pyref y = convert_to_python(x);
      if (y.is_null() or PyList_Append(l, y) == -1) return nullptr;
    }
    return l.new_ref();
  }
  template <typename T> bool all_convertible(PyObject *o, bool r) {
    if (!is_seq(o)) return no_conversion(r, "a sequence");
    for (Py_ssize_t i = 0, n = PySequence_Size(o); i < n; ++i) {
      pyref x = PySequence_GetItem(o, i);
      if (x.is_null() or !py_converter<T>::is_convertible(x, r)) {
        if (!r) PyErr_Clear();
        return false;
      }
    }
    return true;
  }
  template <typename T> struct py_converter<std::vector<T>> {
    template <typename V> static PyObject *c2py(V &&v) { return list_of(v); }
    static bool is_convertible(PyObject *o, bool r) { return all_convertible<std::decay_t<T>>(o, r); }
    static std::vector<T> py2c(PyObject *o) {
      std::vector<T> res;
      for (Py_ssize_t i = 0, n = PySequence_Size(o); i < n; ++i) {
        pyref x = PySequence_GetItem(o, i);
        res.push_back(py_converter<std::decay_t<T>>::py2c(x));
      }
      return res;
    }
  };
  template <typename T, size_t N> struct py_converter<std::array<T, N>> {
    template <typename V> static PyObject *c2py(V &&v) { return list_of(v); }
    static bool is_convertible(PyObject *o, bool r) {
      if (!is_seq(o) or PySequence_Size(o) != Py_ssize_t(N)) return no_conversion(r, "a sequence of this length");
      return all_convertible<T>(o, r);
    }
    static std::array<T, N> py2c(PyObject *o) {
      std::array<T, N> a;
      for (size_t i = 0; i < N; ++i) a[i] = py_converter<T>::py2c(pyref(PySequence_GetItem(o, i)));
      return a;
    }
  };
  template <typename Tu, size_t... I> struct tuple_conv {
    template <typename V> static PyObject *c2py(V &&t) {
      std::array<pyref, sizeof...(I)> a = {pyref(convert_to_python(std::get<I>(t)))...};
      for (auto &x : a)
        if (x.is_null()) return nullptr;
      return PyTuple_Pack(sizeof...(I), static_cast<PyObject *>(a[I])...);
    }
    static bool is_convertible(PyObject *o, bool r) {
      if (!is_seq(o) or PySequence_Size(o) != Py_ssize_t(sizeof...(I))) return no_conversion(r, "a tuple of this length");
      return (py_converter<std::decay_t<std::tuple_element_t<I, Tu>>>::is_convertible(pyref(PySequence_GetItem(o, I)), r) and ...);
    }
    static Tu py2c(PyObject *o) { return Tu{py_converter<std::decay_t<std::tuple_element_t<I, Tu>>>::py2c(pyref(PySequence_GetItem(o, I)))...}; }
  };
  template <typename Tu, typename S> struct tuple_conv_seq;
  template <typename Tu, size_t... I> struct tuple_conv_seq<Tu, std::index_sequence<I...>> : tuple_conv<Tu, I...> {};
  template <typename... T> struct py_converter<std::tuple<T...>> : tuple_conv_seq<std::tuple<T...>, std::index_sequence_for<T...>> {};
  template <typename A, typename B> struct py_converter<std::pair<A, B>> : tuple_conv_seq<std::pair<A, B>, std::index_sequence<0, 1>> {};

  template <typename K, typename V, typename C> struct py_converter<std::map<K, V, C>> {
    static PyObject *c2py(std::map<K, V, C> const &m) {
      pyref d = PyDict_New();
      for (auto const &[k, v] : m) {
        pyref a = convert_to_python(k), b = convert_to_python(v);
        if (a.is_null() or b.is_null()) return nullptr;
        if (PyList_Check((PyObject *)a)) a = PyList_AsTuple(a);
        if (PyDict_SetItem(d, a, b) == -1) return nullptr;
      }
      return d.new_ref();
    }
    static bool is_convertible(PyObject *o, bool r) {
      if (!PyDict_Check(o)) return no_conversion(r, "a dict");
      PyObject *k, *v;
      Py_ssize_t p = 0;
      while (PyDict_Next(o, &p, &k, &v))
        if (!py_converter<K>::is_convertible(k, r) or !py_converter<V>::is_convertible(v, r)) return false;
      return true;
    }
    static std::map<K, V, C> py2c(PyObject *o) {
      std::map<K, V, C> m;
      PyObject *k, *v;
      Py_ssize_t p = 0;
      while (PyDict_Next(o, &p, &k, &v)) m.emplace(py_converter<K>::py2c(k), py_converter<V>::py2c(v));
      return m;
    }
  };
  template <typename T> struct py_converter<std::optional<T>> {
    static PyObject *c2py(std::optional<T> const &o) {
      if (!o) Py_RETURN_NONE;
      return convert_to_python(*o);
    }
    static bool is_convertible(PyObject *o, bool r) { return o == Py_None or py_converter<T>::is_convertible(o, r); }
    static std::optional<T> py2c(PyObject *o) {
      if (o == Py_None) return {};
      return py_converter<T>::py2c(o);
    }
  };
  template <typename... T> struct py_converter<std::variant<T...>> {
    using V = std::variant<T...>;
    static PyObject *c2py(V const &v) {
      return std::visit([](auto const &x) { return convert_to_python(x); }, v);
    }
    static bool is_convertible(PyObject *o, bool r) { return (py_converter<T>::is_convertible(o, false) or ...) or no_conversion(r, "variant"); }
    template <typename A, typename... B> static V pick(PyObject *o) {
      if constexpr (sizeof...(B) == 0)
        return py_converter<A>::py2c(o);
      else {
        if (py_converter<A>::is_convertible(o, false)) return py_converter<A>::py2c(o);
        return pick<B...>(o);
      }
    }
    static V py2c(PyObject *o) { return pick<T...>(o); }
  };
  template <typename T, typename D> struct py_converter_generic_cast_construct {
    static PyObject *c2py(T const &x) { return convert_to_python(static_cast<D>(x)); }
    static bool is_convertible(PyObject *o, bool r) { return py_converter<D>::is_convertible(o, r); }
    static T py2c(PyObject *o) { return T{py_converter<D>::py2c(o)}; }
  };

  // ------------------------------------------------ wrapped classes
  template <typename T> struct wrapped {
    PyObject_HEAD;
    T *_c;
  };
  template <typename T> PyTypeObject *&wrapped_type() {
    static PyTypeObject *t = nullptr;
    return t;
  }
  template <typename T> struct wrapped_converter {
    static PyObject *c2py(T x) {
      auto *t = wrapped_type<T>();
      if (!t) {
        PyErr_SetString(PyExc_TypeError, "The class is not wrapped yet (its module was not imported)");
        return nullptr;
      }
      auto *self = (wrapped<T> *)t->tp_alloc(t, 0);
      if (self) self->_c = new T(std::move(x));
      return (PyObject *)self;
    }
    static bool is_convertible(PyObject *o, bool r) {
      if (wrapped_type<T>() and PyObject_TypeCheck(o, wrapped_type<T>()) and ((wrapped<T> *)o)->_c) return true;
      return no_conversion(r, "a wrapped object of this class");
    }
    static T &py2c(PyObject *o) { return *((wrapped<T> *)o)->_c; }
  };
} // namespace cpp2py
using namespace cpp2py;
