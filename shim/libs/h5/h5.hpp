// Stand-in for TRIQS/h5 (not installed here) on top of the real HDF5 C library.
#pragma once
#include <hdf5.h>
#include <hdf5_hl.h>
#include <array>
#include <complex>
#include <cstdint>
#include <cstring>
#include <string.h>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <variant>
#include <vector>

namespace h5 {
  using dcomplex = std::complex<double>;
  using v_t      = std::vector<hsize_t>;
  struct h5_silence {
    h5_silence() { H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr); }
  };
  inline h5_silence h5_silence_;

  // ref counted handle
  class object {
    protected:
    hid_t id = 0;

    public:
    object() = default;
    object(hid_t i) : id(i) {}
    object(object const &o) : id(o.id) {
      if (id > 0) H5Iinc_ref(id);
    }
    object(object &&o) noexcept : id(std::exchange(o.id, 0)) {}
    object &operator=(object const &o) {
      if (this != &o) {
        close();
        id = o.id;
        if (id > 0) H5Iinc_ref(id);
      }
      return *this;
    }
    object &operator=(object &&o) noexcept {
      std::swap(id, o.id);
      return *this;
    }
    ~object() { close(); }
    static object from_borrowed(hid_t i) {
      if (i > 0) H5Iinc_ref(i);
      return object(i);
    }
    void close() {
      if (id > 0) H5Idec_ref(id);
      id = 0;
    }
    operator hid_t() const { return id; }
    [[nodiscard]] bool is_valid() const { return id > 0 and H5Iis_valid(id) > 0; }
  };
  using dataset   = object;
  using dataspace = object;
  using datatype  = object;
  using attribute = object;

  class file : public object {
    public:
    file() {
      // in-memory file
      hid_t fapl = H5Pcreate(H5P_FILE_ACCESS);
      H5Pset_fapl_core(fapl, 1 << 16, 0);
      id = H5Fcreate("in_memory", H5F_ACC_TRUNC, H5P_DEFAULT, fapl);
      H5Pclose(fapl);
      if (id < 0) throw std::runtime_error("HDF5 : cannot create an in-memory file");
    }
    file(const char *name, char mode) {
      switch (mode) {
        case 'r': id = H5Fopen(name, H5F_ACC_RDONLY, H5P_DEFAULT); break;
        case 'w': id = H5Fcreate(name, H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT); break;
        case 'a':
          id = H5Fopen(name, H5F_ACC_RDWR, H5P_DEFAULT);
          if (id < 0) id = H5Fcreate(name, H5F_ACC_EXCL, H5P_DEFAULT, H5P_DEFAULT);
          break;
        case 'e': id = H5Fcreate(name, H5F_ACC_EXCL, H5P_DEFAULT, H5P_DEFAULT); break;
        default: throw std::runtime_error("HDF5 : bad mode");
      }
      if (id < 0) {
        id = 0;
        throw std::runtime_error(std::string("HDF5 : cannot open file ") + name);
      }
    }
    file(std::string const &name, char mode) : file(name.c_str(), mode) {}
    void flush() { H5Fflush(id, H5F_SCOPE_GLOBAL); }
  };

  class group : public object {
    group(hid_t g, int) : object(g) {}

    public:
    group() = default;
    group(file const &f) : object(H5Gopen2(hid_t(f), "/", H5P_DEFAULT)) {
      if (id < 0) { id = 0; throw std::runtime_error("HDF5 : cannot open the root group"); }
    }
    [[nodiscard]] std::string name() const {
      char b[1024];
      H5Iget_name(id, b, 1024);
      return b;
    }
    [[nodiscard]] bool has_key(std::string const &k) const { return H5Lexists(id, k.c_str(), H5P_DEFAULT) > 0; }
    [[nodiscard]] bool has_subgroup(std::string const &k) const { return type_of(k) == H5I_GROUP; }
    [[nodiscard]] bool has_dataset(std::string const &k) const { return type_of(k) == H5I_DATASET; }
    void unlink(std::string const &k, bool error_if_absent = false) const {
      if (!has_key(k)) {
        if (error_if_absent) throw std::runtime_error("HDF5 : no key " + k);
        return;
      }
      H5Ldelete(id, k.c_str(), H5P_DEFAULT);
    }
    [[nodiscard]] group open_group(std::string const &k) const {
      if (k.empty()) return *this;
      if (!has_key(k)) throw std::runtime_error("no group " + k + " in the group " + name());
      hid_t g = H5Gopen2(id, k.c_str(), H5P_DEFAULT);
      if (g < 0) throw std::runtime_error("Error in opening the subgroup " + k);
      return {g, 0};
    }
    group create_group(std::string const &k, bool delete_if_exists = true) const {
      if (k.empty()) return *this;
      if (has_key(k)) {
        if (!delete_if_exists) return open_group(k);
        unlink(k);
      }
      hid_t g = H5Gcreate2(id, k.c_str(), H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT);
      if (g < 0) throw std::runtime_error("Cannot create the subgroup " + k + " of the group " + name());
      return {g, 0};
    }
    [[nodiscard]] dataset open_dataset(std::string const &k) const {
      if (!has_key(k)) throw std::runtime_error("no dataset " + k + " in the group " + name());
      hid_t d = H5Dopen2(id, k.c_str(), H5P_DEFAULT);
      if (d < 0) throw std::runtime_error("Cannot open dataset " + k + " in the group " + name());
      return d;
    }
    [[nodiscard]] dataset create_dataset(std::string const &k, datatype ty, dataspace sp, hid_t pl = H5P_DEFAULT) const {
      unlink(k);
      hid_t d = H5Dcreate2(id, k.c_str(), ty, sp, H5P_DEFAULT, pl, H5P_DEFAULT);
      if (d < 0) throw std::runtime_error("Cannot create the dataset " + k + " in the group " + name());
      return d;
    }
    [[nodiscard]] std::vector<std::string> get_all_subgroup_names() const { return names(H5I_GROUP); }
    [[nodiscard]] std::vector<std::string> get_all_dataset_names() const { return names(H5I_DATASET); }
    [[nodiscard]] std::vector<std::string> get_all_subgroup_dataset_names() const { return names(H5I_BADID); }

    private:
    [[nodiscard]] H5I_type_t type_of(std::string const &k) const {
      if (!has_key(k)) return H5I_BADID;
      hid_t o = H5Oopen(id, k.c_str(), H5P_DEFAULT);
      auto t  = H5Iget_type(o);
      H5Oclose(o);
      return t;
    }
    [[nodiscard]] std::vector<std::string> names(H5I_type_t ty) const {
      std::vector<std::string> r;
      hsize_t n = 0;
      H5Gget_num_objs(id, &n);
      for (hsize_t i = 0; i < n; ++i) {
        char b[1024];
        H5Lget_name_by_idx(id, ".", H5_INDEX_NAME, H5_ITER_INC, i, b, 1024, H5P_DEFAULT);
        if (ty == H5I_BADID or type_of(b) == ty) r.emplace_back(b);
      }
      return r;
    }
  };

  // ---------------- native types ---------------
  template <typename T> hid_t native_type() {
    using U = std::remove_cv_t<T>;
    if constexpr (std::is_same_v<U, double>) return H5T_NATIVE_DOUBLE;
    else if constexpr (std::is_same_v<U, float>) return H5T_NATIVE_FLOAT;
    else if constexpr (std::is_same_v<U, bool>) return H5T_NATIVE_HBOOL;
    else if constexpr (std::is_same_v<U, char>) return H5T_NATIVE_CHAR;
    else if constexpr (std::is_same_v<U, signed char>) return H5T_NATIVE_SCHAR;
    else if constexpr (std::is_same_v<U, unsigned char>) return H5T_NATIVE_UCHAR;
    else if constexpr (std::is_same_v<U, short>) return H5T_NATIVE_SHORT;
    else if constexpr (std::is_same_v<U, int>) return H5T_NATIVE_INT;
    else if constexpr (std::is_same_v<U, unsigned>) return H5T_NATIVE_UINT;
    else if constexpr (std::is_same_v<U, long>) return H5T_NATIVE_LONG;
    else if constexpr (std::is_same_v<U, unsigned long>) return H5T_NATIVE_ULONG;
    else if constexpr (std::is_same_v<U, long long>) return H5T_NATIVE_LLONG;
    else if constexpr (std::is_same_v<U, unsigned long long>) return H5T_NATIVE_ULLONG;
    else static_assert(sizeof(T) == 0, "no native HDF5 type");
  }
  template <typename T> hid_t hdf5_type() { return native_type<T>(); }
  template <typename T> inline constexpr bool is_native = std::is_arithmetic_v<T>;

  namespace detail {
    template <typename T> void write_native(group const &g, std::string const &name, T const *p, std::vector<hsize_t> dims, bool cplx) {
      dataspace sp = dims.empty() ? H5Screate(H5S_SCALAR) : H5Screate_simple(int(dims.size()), dims.data(), nullptr);
      dataset ds   = g.create_dataset(name, datatype(H5Tcopy(native_type<T>())), sp);
      bool empty   = false;
      for (auto d : dims) empty |= (d == 0);
      if (!empty and H5Dwrite(ds, native_type<T>(), H5S_ALL, H5S_ALL, H5P_DEFAULT, p) < 0) throw std::runtime_error("HDF5: write failed for " + name);
      if (cplx) {
        dataspace s1 = H5Screate(H5S_SCALAR);
        datatype st  = H5Tcopy(H5T_C_S1);
        H5Tset_size(st, 1);
        attribute a = H5Acreate2(ds, "__complex__", st, s1, H5P_DEFAULT, H5P_DEFAULT);
        H5Awrite(a, st, "1");
      }
    }
    inline std::vector<hsize_t> dims_of(dataset const &ds) {
      dataspace sp = H5Dget_space(ds);
      int r        = H5Sget_simple_extent_ndims(sp);
      std::vector<hsize_t> d(r < 0 ? 0 : r);
      if (r > 0) H5Sget_simple_extent_dims(sp, d.data(), nullptr);
      return d;
    }
    inline bool is_cplx(dataset const &ds) { return H5Aexists(ds, "__complex__") > 0; }
    template <typename T> void read_native(dataset const &ds, T *p, std::string const &name) {
      if (H5Dread(ds, native_type<T>(), H5S_ALL, H5S_ALL, H5P_DEFAULT, p) < 0) throw std::runtime_error("HDF5: read failed for " + name);
    }
  } // namespace detail

  // scalar
  template <typename T>
    requires is_native<T>
  void h5_write(group g, std::string const &name, T const &x) {
    detail::write_native(g, name, &x, {}, false);
  }
  template <typename T>
    requires is_native<T>
  void h5_read(group g, std::string const &name, T &x) {
    dataset ds = g.open_dataset(name);
    if (!detail::dims_of(ds).empty()) throw std::runtime_error("HDF5: reading a scalar, the dataset " + name + " is not one");
    detail::read_native(ds, &x, name);
  }
  inline void h5_write(group g, std::string const &name, std::complex<double> const &x) { detail::write_native(g, name, reinterpret_cast<double const *>(&x), {2}, true); }
  inline void h5_read(group g, std::string const &name, std::complex<double> &x) {
    if (g.has_subgroup(name)) { // files of old versions
      group gr = g.open_group(name);
      double re = 0, im = 0;
      h5_read(gr, "r", re);
      h5_read(gr, "i", im);
      x = {re, im};
      return;
    }
    dataset ds = g.open_dataset(name);
    if (detail::dims_of(ds) == std::vector<hsize_t>{}) {
      double r;
      detail::read_native(ds, &r, name);
      x = r;
    } else
      detail::read_native(ds, reinterpret_cast<double *>(&x), name);
  }
  // strings
  inline void h5_write(group g, std::string const &name, std::string const &s) {
    datatype dt = H5Tcopy(H5T_C_S1);
    H5Tset_size(dt, s.size() + 1);
    H5Tset_cset(dt, H5T_CSET_UTF8);
    dataspace sp = H5Screate(H5S_SCALAR);
    dataset ds   = g.create_dataset(name, dt, sp);
    if (H5Dwrite(ds, dt, H5S_ALL, H5S_ALL, H5P_DEFAULT, s.c_str()) < 0) throw std::runtime_error("HDF5: string write failed");
  }
  inline void h5_write(group g, std::string const &name, const char *s) { h5_write(g, name, std::string(s)); }
  inline void h5_read(group g, std::string const &name, std::string &s) {
    dataset ds  = g.open_dataset(name);
    datatype dt = H5Dget_type(ds);
    if (H5Tget_class(dt) != H5T_STRING) throw std::runtime_error("HDF5: " + name + " is not a string");
    std::vector<char> b(H5Tget_size(dt) + 1, 0);
    if (H5Dread(ds, dt, H5S_ALL, H5S_ALL, H5P_DEFAULT, b.data()) < 0) throw std::runtime_error("HDF5: string read failed");
    s = b.data();
  }
  // array of strings / vectors: strings are stored as a fixed-size char matrix
  inline void h5_write(group g, std::string const &name, std::vector<std::string> const &v) {
    size_t L = 1;
    for (auto &s : v) L = std::max(L, s.size() + 1);
    std::vector<char> b(std::max<size_t>(1, v.size() * L), 0);
    for (size_t i = 0; i < v.size(); ++i) std::copy(v[i].begin(), v[i].end(), b.begin() + i * L);
    datatype dt = H5Tcopy(H5T_C_S1);
    H5Tset_size(dt, L);
    hsize_t d[1] = {v.size()};
    dataspace sp = H5Screate_simple(1, d, nullptr);
    dataset ds   = g.create_dataset(name, dt, sp);
    if (!v.empty()) H5Dwrite(ds, dt, H5S_ALL, H5S_ALL, H5P_DEFAULT, b.data());
  }
  inline void h5_read(group g, std::string const &name, std::vector<std::string> &v) {
    dataset ds  = g.open_dataset(name);
    datatype dt = H5Dget_type(ds);
    if (H5Tget_class(dt) != H5T_STRING) throw std::runtime_error("HDF5: " + name + " is not a string array");
    auto d   = detail::dims_of(ds);
    size_t n = d.empty() ? 1 : d[0], L = H5Tget_size(dt);
    std::vector<char> b(n * L + 1, 0);
    if (n) H5Dread(ds, dt, H5S_ALL, H5S_ALL, H5P_DEFAULT, b.data());
    v.clear();
    for (size_t i = 0; i < n; ++i) v.emplace_back(std::string(&b[i * L], strnlen(&b[i * L], L)));
  }

  // ---------------- attributes -----------------
  template <typename T> void h5_write_attribute(object o, std::string const &name, T const &x)
    requires is_native<T>
  {
    dataspace sp = H5Screate(H5S_SCALAR);
    if (H5Aexists(o, name.c_str()) > 0) H5Adelete(o, name.c_str());
    attribute a = H5Acreate2(o, name.c_str(), native_type<T>(), sp, H5P_DEFAULT, H5P_DEFAULT);
    H5Awrite(a, native_type<T>(), &x);
  }
  inline void h5_write_attribute(object o, std::string const &name, std::string const &s) {
    datatype dt = H5Tcopy(H5T_C_S1);
    H5Tset_size(dt, s.size() + 1);
    dataspace sp = H5Screate(H5S_SCALAR);
    if (H5Aexists(o, name.c_str()) > 0) H5Adelete(o, name.c_str());
    attribute a = H5Acreate2(o, name.c_str(), dt, sp, H5P_DEFAULT, H5P_DEFAULT);
    if (!(a > 0)) throw std::runtime_error("HDF5: cannot create the attribute " + name);
    H5Awrite(a, dt, s.c_str());
  }
  inline void h5_write_attribute(object o, std::string const &name, const char *s) { h5_write_attribute(o, name, std::string(s)); }
  template <typename T> void h5_read_attribute(object o, std::string const &name, T &x)
    requires is_native<T>
  {
    attribute a = H5Aopen(o, name.c_str(), H5P_DEFAULT);
    if (!(a > 0) or H5Aread(a, native_type<T>(), &x) < 0) throw std::runtime_error("HDF5: cannot read the attribute " + name);
  }
  inline void h5_read_attribute(object o, std::string const &name, std::string &s) {
    s.clear();
    if (!(H5Aexists(o, name.c_str()) > 0)) return;
    attribute a = H5Aopen(o, name.c_str(), H5P_DEFAULT);
    datatype dt = H5Aget_type(a);
    if (H5Tis_variable_str(dt) > 0) {
      char *ptr = nullptr;
      datatype mt = H5Tcopy(H5T_C_S1);
      H5Tset_size(mt, H5T_VARIABLE);
      H5Tset_cset(mt, H5Tget_cset(dt));
      if (H5Aread(a, mt, &ptr) < 0) throw std::runtime_error("HDF5: cannot read the attribute " + name);
      if (ptr) s = ptr;
      free(ptr);
      return;
    }
    std::vector<char> b(H5Tget_size(dt) + 1, 0);
    if (H5Aread(a, dt, b.data()) < 0) throw std::runtime_error("HDF5: cannot read the attribute " + name);
    s = b.data();
  }
  // vector<string> and vector<vector<string>> attributes (serialised with explicit lengths)
  inline void h5_write_attribute(object o, std::string const &name, std::vector<std::vector<std::string>> const &v) {
    std::string s = std::to_string(v.size()) + ";";
    for (auto &l : v) {
      s += std::to_string(l.size()) + ";";
      for (auto &x : l) s += std::to_string(x.size()) + ":" + x;
    }
    h5_write_attribute(o, name, s);
  }
  inline void h5_read_attribute(object o, std::string const &name, std::vector<std::vector<std::string>> &v) {
    std::string s;
    h5_read_attribute(o, name, s);
    v.clear();
    if (s.empty()) return;
    size_t p  = 0;
    auto next = [&](char c) {
      auto q = s.find(c, p);
      auto r = std::stoul(s.substr(p, q - p));
      p      = q + 1;
      return r;
    };
    v.resize(next(';'));
    for (auto &l : v) {
      l.resize(next(';'));
      for (auto &x : l) {
        auto n = next(':');
        x      = s.substr(p, n);
        p += n;
      }
    }
  }
  template <typename T> void write_attribute(object o, std::string const &name, T const &x) { h5_write_attribute(o, name, x); }
  template <typename T> void read_attribute(object o, std::string const &name, T &x) { h5_read_attribute(o, name, x); }
  template <typename T> T read_attribute(object o, std::string const &name) {
    T x;
    h5_read_attribute(o, name, x);
    return x;
  }

  // ---------------- format -----------------
  inline void write_hdf5_format_as_string(object g, std::string const &s) { h5_write_attribute(g, "Format", s); }
  template <typename T> std::string get_hdf5_format(T const &) { return T::hdf5_format(); }
  template <typename T> std::string get_hdf5_format() { return T::hdf5_format(); }
  template <typename T> void write_hdf5_format(object g, T const &) { write_hdf5_format_as_string(g, T::hdf5_format()); }
  template <typename T> void write_hdf5_format(object g) { write_hdf5_format_as_string(g, T::hdf5_format()); }
  inline std::string read_hdf5_format(object g) {
    std::string s;
    h5_read_attribute(g, "Format", s);
    if (s.empty()) h5_read_attribute(g, "TRIQS_HDF5_data_scheme", s); // files of old versions
    return s;
  }
  inline void read_hdf5_format(object g, std::string &s) { s = read_hdf5_format(g); }
  inline std::string read_hdf5_format_from_key(group g, std::string const &k) {
    hid_t o = H5Oopen(g, k.c_str(), H5P_DEFAULT);
    if (o < 0) throw std::runtime_error("HDF5: no key " + k);
    object ob(o);
    return read_hdf5_format(ob);
  }
  inline void assert_hdf5_format_as_string(group g, const char *tag, bool ignore_if_absent = false) {
    auto s = read_hdf5_format(g);
    if (ignore_if_absent and s.empty()) return;
    if (s != tag) throw std::runtime_error("h5_read : mismatch of the tag Format in the h5 group : found " + s + ", expected " + tag);
  }
  template <typename T> void assert_hdf5_format(group g, T const &, bool ignore_if_absent = false) { assert_hdf5_format_as_string(g, std::string(T::hdf5_format()).c_str(), ignore_if_absent); }

  template <typename T>
  concept Storable = requires(T const &xc, T &x, group g, std::string const &name) {
    { T::hdf5_format() };
    h5_write(g, name, xc);
  };

  // ---------------- generic containers ---------------
  template <typename T> void write(group g, std::string const &name, T const &x) { h5_write(g, name, x); }
  template <typename T> void read(group g, std::string const &name, T &x) { h5_read(g, name, x); }
  template <typename T> T read(group g, std::string const &name) {
    if constexpr (requires { T::h5_read_construct(g, name); }) return T::h5_read_construct(g, name);
    else if constexpr (requires { h5_read_construct(g, name, (T *)nullptr); }) return h5_read_construct(g, name, (T *)nullptr);
    else {
      T x;
      h5_read(g, name, x);
      return x;
    }
  }
  template <typename T> T h5_read(group g, std::string const &name) { return read<T>(g, name); }
  template <typename T> bool try_read(group g, std::string const &name, T &x) {
    if (!g.has_key(name)) return false;
    h5_read(g, name, x);
    return true;
  }

  template <typename T> void h5_write(group g, std::string const &name, std::vector<T> const &v);
  template <typename T> void h5_read(group g, std::string const &name, std::vector<T> &v);
  template <typename A, typename B> void h5_write(group g, std::string const &name, std::pair<A, B> const &p);
  template <typename A, typename B> void h5_read(group g, std::string const &name, std::pair<A, B> &p);
  template <typename... A> void h5_write(group g, std::string const &name, std::tuple<A...> const &p);
  template <typename... A> void h5_read(group g, std::string const &name, std::tuple<A...> &p);
  template <typename A> void h5_write(group g, std::string const &name, std::map<std::string, A> const &p);
  template <typename A> void h5_read(group g, std::string const &name, std::map<std::string, A> &p);
  template <typename... A> void h5_write(group g, std::string const &name, std::variant<A...> const &p);
  template <typename... A> void h5_read(group g, std::string const &name, std::variant<A...> &p);
  template <typename A> void h5_write(group g, std::string const &name, std::optional<A> const &p);
  template <typename A> void h5_read(group g, std::string const &name, std::optional<A> &p);

  template <typename T, size_t N> void h5_write(group g, std::string const &name, std::array<T, N> const &v) {
    if constexpr (is_native<T>) detail::write_native(g, name, v.data(), {N}, false);
    else if constexpr (std::is_same_v<T, dcomplex>) detail::write_native(g, name, reinterpret_cast<double const *>(v.data()), {N, 2}, true);
    else {
      auto gr = g.create_group(name);
      for (size_t i = 0; i < N; ++i) h5_write(gr, std::to_string(i), v[i]);
    }
  }
  template <typename T, size_t N> void h5_read(group g, std::string const &name, std::array<T, N> &v) {
    if constexpr (is_native<T> or std::is_same_v<T, dcomplex>) {
      dataset ds = g.open_dataset(name);
      auto d     = detail::dims_of(ds);
      if (d.empty() or d[0] != N) throw std::runtime_error("HDF5: array size mismatch for " + name);
      if constexpr (is_native<T>) detail::read_native(ds, v.data(), name);
      else detail::read_native(ds, reinterpret_cast<double *>(v.data()), name);
    } else {
      auto gr = g.open_group(name);
      for (size_t i = 0; i < N; ++i) h5_read(gr, std::to_string(i), v[i]);
    }
  }
  template <typename T> void h5_write(group g, std::string const &name, std::vector<T> const &v) {
    if constexpr (std::is_same_v<T, bool>) {
      std::vector<int> w(v.begin(), v.end());
      h5_write(g, name, w);
    } else if constexpr (is_native<T>) detail::write_native(g, name, v.data(), {v.size()}, false);
    else if constexpr (std::is_same_v<T, dcomplex>) detail::write_native(g, name, reinterpret_cast<double const *>(v.data()), {v.size(), 2}, true);
    else {
      auto gr = g.create_group(name);
      write_hdf5_format_as_string(gr, "List");
      for (size_t i = 0; i < v.size(); ++i) h5_write(gr, std::to_string(i), v[i]);
    }
  }
  template <typename T> void h5_read(group g, std::string const &name, std::vector<T> &v) {
    if constexpr (is_native<T> and not std::is_same_v<T, bool>) {
      dataset ds = g.open_dataset(name);
      auto d     = detail::dims_of(ds);
      if (d.size() != 1) throw std::runtime_error("HDF5: rank mismatch for " + name);
      v.resize(d[0]);
      if (d[0]) detail::read_native(ds, v.data(), name);
    } else if constexpr (std::is_same_v<T, dcomplex>) {
      dataset ds = g.open_dataset(name);
      auto d     = detail::dims_of(ds);
      v.resize(d[0]);
      if (d[0]) detail::read_native(ds, reinterpret_cast<double *>(v.data()), name);
    } else {
      auto gr = g.open_group(name);
      size_t n = gr.get_all_subgroup_dataset_names().size();
      v.clear();
      v.reserve(n);
      for (size_t i = 0; i < n; ++i) v.emplace_back(read<T>(gr, std::to_string(i)));
    }
  }
  template <typename A, typename B> void h5_write(group g, std::string const &name, std::pair<A, B> const &p) {
    auto gr = g.create_group(name);
    write_hdf5_format_as_string(gr, "PythonTupleWrap");
    h5_write(gr, "0", p.first);
    h5_write(gr, "1", p.second);
  }
  template <typename A, typename B> void h5_read(group g, std::string const &name, std::pair<A, B> &p) {
    auto gr = g.open_group(name);
    h5_read(gr, "0", p.first);
    h5_read(gr, "1", p.second);
  }
  template <typename... A> void h5_write(group g, std::string const &name, std::tuple<A...> const &p) {
    auto gr = g.create_group(name);
    write_hdf5_format_as_string(gr, "PythonTupleWrap");
    [&]<size_t... I>(std::index_sequence<I...>) { (h5_write(gr, std::to_string(I), std::get<I>(p)), ...); }(std::index_sequence_for<A...>{});
  }
  template <typename... A> void h5_read(group g, std::string const &name, std::tuple<A...> &p) {
    auto gr = g.open_group(name);
    [&]<size_t... I>(std::index_sequence<I...>) { (h5_read(gr, std::to_string(I), std::get<I>(p)), ...); }(std::index_sequence_for<A...>{});
  }
  template <typename A> void h5_write(group g, std::string const &name, std::map<std::string, A> const &p) {
    auto gr = g.create_group(name);
    write_hdf5_format_as_string(gr, "Dict");
    for (auto &[k, v] : p) h5_write(gr, k, v);
  }
  template <typename A> void h5_read(group g, std::string const &name, std::map<std::string, A> &p) {
    auto gr = g.open_group(name);
    p.clear();
    for (auto &k : gr.get_all_subgroup_dataset_names()) p.emplace(k, read<A>(gr, k));
  }
  template <typename... A> void h5_write(group g, std::string const &name, std::variant<A...> const &p) {
    std::visit([&](auto const &x) { h5_write(g, name, x); }, p);
  }
  template <typename... A> void h5_read(group g, std::string const &name, std::variant<A...> &p) {
    bool ok     = false;
    auto try_it = [&]<typename X>(X *) {
      if (ok) return;
      try {
        p  = read<X>(g, name);
        ok = true;
      } catch (std::exception const &) {}
    };
    (try_it((A *)nullptr), ...);
    if (!ok) throw std::runtime_error("HDF5: no alternative of the variant can be read");
  }
  template <typename A> void h5_write(group g, std::string const &name, std::optional<A> const &p) {
    if (p) h5_write(g, name, *p);
  }
  template <typename A> void h5_read(group g, std::string const &name, std::optional<A> &p) {
    p.reset();
    if (g.has_key(name)) p.emplace(read<A>(g, name));
  }

  // ---------------- serialisation through an in-memory file ---------------
  template <typename T> std::vector<std::byte> serialize(T const &x) {
    file f;
    h5_write(group(f), "object", x);
    f.flush();
    ssize_t n = H5Fget_file_image(f, nullptr, 0);
    std::vector<std::byte> b(n);
    H5Fget_file_image(f, b.data(), n);
    return b;
  }
  template <typename T> T deserialize(std::vector<std::byte> const &b) {
    object f(H5LTopen_file_image((void *)b.data(), b.size(), H5LT_FILE_IMAGE_OPEN_RW));
    object g0(H5Gopen2(f, "/", H5P_DEFAULT));
    static_assert(sizeof(group) == sizeof(object));
    group g;
    static_cast<object &>(g) = g0;
    return read<T>(g, "object");
  }
} // namespace h5
#define H5_EXPECTS(X)
