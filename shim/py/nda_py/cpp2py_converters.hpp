// Stand-in of nda_py: arrays and views cross as numpy arrays.
#pragma once
#include <cpp2py/cpp2py.hpp>
#include <nda/nda.hpp>
#define NPY_NO_DEPRECATED_API NPY_1_7_API_VERSION
#define PY_ARRAY_UNIQUE_SYMBOL vmon_numpy_api
#ifndef VMON_NUMPY_MAIN
#define NO_IMPORT_ARRAY
#endif
#include <numpy/arrayobject.h>

namespace cpp2py {
  template <typename T> constexpr int np_code = NPY_OBJECT;
  template <> inline constexpr int np_code<double> = NPY_DOUBLE;
  template <> inline constexpr int np_code<std::complex<double>> = NPY_CDOUBLE;
  template <> inline constexpr int np_code<long> = NPY_LONG;
  template <> inline constexpr int np_code<int> = NPY_INT;
  template <> inline constexpr int np_code<unsigned long> = NPY_ULONG;

  template <typename V> PyObject *numpy_of(V const &v, PyObject *base, bool writeable) { // base: a new reference, or null: a copy is made
    using T         = std::remove_const_t<std::remove_pointer_t<decltype(v.data())>>;
    constexpr int R = V::rank;
    npy_intp len[R + 1], str[R + 1];
    for (int i = 0; i < R; ++i) {
      len[i] = v.indexmap().lengths()[i];
      str[i] = v.indexmap().strides()[i] * long(sizeof(T));
    }
    PyObject *a = PyArray_New(&PyArray_Type, R, len, np_code<T>, str, (void *)v.data(), 0, NPY_ARRAY_ALIGNED | (writeable ? NPY_ARRAY_WRITEABLE : 0), nullptr);
    if (!a) return nullptr;
    if (!base) {
      PyObject *c = PyArray_NewCopy((PyArrayObject *)a, NPY_CORDER);
      Py_DECREF(a);
      return c;
    }
    PyArray_SetBaseObject((PyArrayObject *)a, base);
    return a;
  }

  template <typename T, int R, typename L, char Alg, typename AP, typename OP> struct py_converter<nda::basic_array_view<T, R, L, Alg, AP, OP>> {
    using c_type = nda::basic_array_view<T, R, L, Alg, AP, OP>;
    using U      = std::remove_const_t<T>;
    static PyObject *c2py(c_type v) {
      Py_XINCREF(keep());
      return numpy_of(v, keep(), !std::is_const_v<T>);
    }
    static bool is_convertible(PyObject *o, bool r) {
      if (!PyArray_Check(o)) return no_conversion(r, "an array");
      auto *a = (PyArrayObject *)o;
      if (PyArray_TYPE(a) != np_code<U>) return no_conversion(r, "an array of this type of elements");
      if (PyArray_NDIM(a) != R) return no_conversion(r, "an array of this rank");
      if (!PyArray_ISALIGNED(a) or !PyArray_ISNOTSWAPPED(a) or (!std::is_const_v<T> and !PyArray_ISWRITEABLE(a))) return no_conversion(r, "an array with this memory");
      for (int i = 0; i < R; ++i)
        if (PyArray_STRIDES(a)[i] % long(sizeof(U))) return no_conversion(r, "an array with these strides");
      return true;
    }
    static c_type py2c(PyObject *o) {
      auto *a = (PyArrayObject *)o;
      std::array<long, R> len, str;
      for (int i = 0; i < R; ++i) {
        len[i] = PyArray_DIMS(a)[i];
        str[i] = PyArray_STRIDES(a)[i] / long(sizeof(U));
      }
      return c_type{nda::idx_map<R, L>{len, str}, (T *)PyArray_DATA(a)};
    }
  };

  template <typename A> void delete_owned(PyObject *c) { delete (A *)PyCapsule_GetPointer(c, "vmon"); }
  template <typename A> PyObject *capsule(A *p) { return PyCapsule_New(p, "vmon", delete_owned<A>); }

  template <typename T, int R, typename L, char Alg, typename C> struct py_converter<nda::basic_array<T, R, L, Alg, C>> {
    using c_type = nda::basic_array<T, R, L, Alg, C>;
    static PyObject *c2py(c_type x) {
      if constexpr (np_code<T> == NPY_OBJECT) {
        npy_intp len[R + 1];
        for (int i = 0; i < R; ++i) len[i] = x.shape()[i];
        PyObject *a = PyArray_SimpleNew(R, len, NPY_OBJECT);
        auto **p    = (PyObject **)PyArray_DATA((PyArrayObject *)a);
        for (auto const &e : x) {
          Py_XDECREF(*p);
          *p++ = convert_to_python(e);
        }
        return a;
      } else {
        auto *p = new c_type(std::move(x));
        return numpy_of(*p, capsule(p), true);
      }
    }
    static pyref as_array(PyObject *o) {
      if constexpr (np_code<T> == NPY_OBJECT) return PyArray_FROMANY(o, NPY_OBJECT, R, R, NPY_ARRAY_DEFAULT);
      pyref a = PyArray_FROM_O(o);
      if (a.is_null() or PyArray_NDIM((PyArrayObject *)(PyObject *)a) != R) return {};
      auto *d = PyArray_DescrFromType(np_code<T>);
      if (PyArray_SIZE((PyArrayObject *)(PyObject *)a) > 0 and !PyArray_CanCastArrayTo((PyArrayObject *)(PyObject *)a, d, NPY_SAFE_CASTING)) {
        Py_DECREF(d);
        return {};
      }
      return PyArray_FromArray((PyArrayObject *)(PyObject *)a, d, NPY_ARRAY_DEFAULT | NPY_ARRAY_FORCECAST);
    }
    static bool is_convertible(PyObject *o, bool r) {
      if (PyUnicode_Check(o) or PyDict_Check(o) or o == Py_None) return no_conversion(r, "an array");
      pyref a = as_array(o);
      if (a.is_null()) return no_conversion(r, "an array of this type and rank");
      if constexpr (np_code<T> == NPY_OBJECT) {
        auto **p = (PyObject **)PyArray_DATA((PyArrayObject *)(PyObject *)a);
        for (long i = 0, n = PyArray_SIZE((PyArrayObject *)(PyObject *)a); i < n; ++i)
          if (!py_converter<T>::is_convertible(p[i], r)) return false;
      }
      return true;
    }
    static c_type py2c(PyObject *o) {
      pyref a = as_array(o);
      auto *q = (PyArrayObject *)(PyObject *)a;
      std::array<long, R> len;
      for (int i = 0; i < R; ++i) len[i] = PyArray_DIMS(q)[i];
      c_type res(len);
      if constexpr (np_code<T> == NPY_OBJECT) {
        auto **p = (PyObject **)PyArray_DATA(q);
        for (auto &e : res) e = py_converter<T>::py2c(*p++);
      } else {
        auto *p = (T *)PyArray_DATA(q);
        for (auto &e : res) e = *p++;
      }
      return res;
    }
  };
} // namespace cpp2py
