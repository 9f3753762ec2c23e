// A stand-in for the part of pybind11 this repository's bindings use (pybind11 is not installed here).  It follows
// pybind11's rules for overloads, conversions, holders, return value policies, exceptions and pickling, on the plain
// CPython API, so that the repository's own python/bindings.cpp compiles unchanged and behaves as it would for real.
#pragma once
#include <Python.h>
#include <structmember.h>

#include <algorithm>
#include <array>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <exception>
#include <functional>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <new>
#include <optional>
#include <set>
#include <stdexcept>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <typeindex>
#include <typeinfo>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>

namespace pybind11
{
using ssize_t = Py_ssize_t;
enum class return_value_policy : uint8_t
{
    automatic = 0,
    automatic_reference,
    take_ownership,
    copy,
    move,
    reference,
    reference_internal
};

template <class T> using remove_cvref_t_ = std::remove_cv_t<std::remove_reference_t<T>>;
namespace detail
{
template <class T> struct intrinsic
{
    using type = T;
};
template <class T> struct intrinsic<const T>
{
    using type = typename intrinsic<T>::type;
};
template <class T> struct intrinsic<T *>
{
    using type = typename intrinsic<T>::type;
};
template <class T> struct intrinsic<T &>
{
    using type = typename intrinsic<T>::type;
};
template <class T> struct intrinsic<T &&>
{
    using type = typename intrinsic<T>::type;
};
template <class T, size_t N> struct intrinsic<const T[N]>
{
    using type = typename intrinsic<T>::type;
};
template <class T, size_t N> struct intrinsic<T[N]>
{
    using type = typename intrinsic<T>::type;
};
template <class T> using intrinsic_t = typename intrinsic<T>::type;
} // namespace detail

// ------------------------------------------------------------------ objects
class object;
class str;
class handle
{
  public:
    handle() = default;
    handle(PyObject *p) : m_ptr(p) {}
    PyObject *ptr() const { return m_ptr; }
    PyObject *&ptr() { return m_ptr; }
    const handle &inc_ref() const
    {
        Py_XINCREF(m_ptr);
        return *this;
    }
    const handle &dec_ref() const
    {
        Py_XDECREF(m_ptr);
        return *this;
    }
    explicit operator bool() const { return m_ptr != nullptr; }
    bool is_none() const { return m_ptr == Py_None; }
    bool is(handle o) const { return m_ptr == o.m_ptr; }
    bool operator==(const handle &o) const { return m_ptr == o.m_ptr; }
    bool operator!=(const handle &o) const { return m_ptr != o.m_ptr; }
    template <class T> T cast() const;
    inline object attr(const char *name) const;
    template <class... A> object operator()(A &&...a) const;

  protected:
    PyObject *m_ptr = nullptr;
};
struct borrowed_t
{
};
struct stolen_t
{
};
class object : public handle
{
  public:
    object() = default;
    object(handle h, borrowed_t) : handle(h) { inc_ref(); }
    object(handle h, stolen_t) : handle(h) {}
    object(const object &o) : handle(o) { inc_ref(); }
    object(object &&o) noexcept
    {
        m_ptr = o.m_ptr;
        o.m_ptr = nullptr;
    }
    ~object() { dec_ref(); }
    object &operator=(const object &o)
    {
        o.inc_ref();
        handle old(m_ptr);
        m_ptr = o.m_ptr;
        old.dec_ref();
        return *this;
    }
    object &operator=(object &&o) noexcept
    {
        if (this != &o)
        {
            handle old(m_ptr);
            m_ptr = o.m_ptr;
            o.m_ptr = nullptr;
            old.dec_ref();
        }
        return *this;
    }
    handle release()
    {
        PyObject *p = m_ptr;
        m_ptr = nullptr;
        return handle(p);
    }
};
template <class T> T reinterpret_borrow(handle h) { return T(h, borrowed_t{}); }
template <class T> T reinterpret_steal(handle h) { return T(h, stolen_t{}); }

class error_already_set : public std::exception
{
  public:
    error_already_set()
    {
        PyObject *t, *v, *tb;
        PyErr_Fetch(&t, &v, &tb);
        type = reinterpret_steal<object>(t);
        value = reinterpret_steal<object>(v);
        trace = reinterpret_steal<object>(tb);
    }
    const char *what() const noexcept override { return "Python error"; }
    void restore() { PyErr_Restore(type.release().ptr(), value.release().ptr(), trace.release().ptr()); }
    bool matches(handle exc) const { return PyErr_GivenExceptionMatches(type.ptr(), exc.ptr()) != 0; }
    object type, value, trace;
};
class builtin_exception : public std::runtime_error
{
  public:
    using std::runtime_error::runtime_error;
    virtual void set_error() const = 0;
};
#define MINIPB_EXC(name, py)                                                                                                     \
    class name : public builtin_exception                                                                                        \
    {                                                                                                                            \
      public:                                                                                                                    \
        using builtin_exception::builtin_exception;                                                                              \
        name() : builtin_exception("") {}                                                                                        \
        void set_error() const override { PyErr_SetString(py, what()); }                                                         \
    };
MINIPB_EXC(stop_iteration, PyExc_StopIteration)
MINIPB_EXC(index_error, PyExc_IndexError)
MINIPB_EXC(key_error, PyExc_KeyError)
MINIPB_EXC(value_error, PyExc_ValueError)
MINIPB_EXC(type_error, PyExc_TypeError)
MINIPB_EXC(buffer_error, PyExc_BufferError)
MINIPB_EXC(import_error, PyExc_ImportError)
MINIPB_EXC(attribute_error, PyExc_AttributeError)
MINIPB_EXC(cast_error, PyExc_RuntimeError)
MINIPB_EXC(reference_cast_error, PyExc_RuntimeError)
#undef MINIPB_EXC
[[noreturn]] inline void pybind11_fail(const std::string &s) { throw std::runtime_error(s); }

inline object handle::attr(const char *name) const
{
    PyObject *r = PyObject_GetAttrString(m_ptr, name);
    if (!r)
        throw error_already_set();
    return reinterpret_steal<object>(r);
}
inline bool hasattr(handle h, const char *name) { return PyObject_HasAttrString(h.ptr(), name) == 1; }
inline void setattr(handle h, const char *name, handle v)
{
    if (PyObject_SetAttrString(h.ptr(), name, v.ptr()) != 0)
        throw error_already_set();
}

#define MINIPB_OBJ(name, check)                                                                                                  \
    using object::object;                                                                                                        \
    name(const object &o) : object(o) {}                                                                                         \
    name(object &&o) : object(std::move(o)) {}                                                                                   \
    static bool check_(handle h) { return h.ptr() && check(h.ptr()); }

class none : public object
{
  public:
    static bool is_none_(PyObject *p) { return p == Py_None; }
    MINIPB_OBJ(none, is_none_)
    none() : object(Py_None, borrowed_t{}) {}
};
class bytes : public object
{
  public:
    MINIPB_OBJ(bytes, PyBytes_Check)
    bytes(const std::string &s) : object(PyBytes_FromStringAndSize(s.data(), static_cast<ssize_t>(s.size())), stolen_t{}) {}
    bytes(const char *s) : bytes(std::string(s)) {}
    bytes(const char *s, size_t n) : bytes(std::string(s, n)) {}
    bytes(std::string_view s) : bytes(std::string(s)) {}
    bytes() : bytes(std::string()) {}
    operator std::string() const
    {
        char *p;
        ssize_t n;
        if (PyBytes_AsStringAndSize(m_ptr, &p, &n) != 0)
            throw error_already_set();
        return std::string(p, static_cast<size_t>(n));
    }
};
class str : public object
{
  public:
    MINIPB_OBJ(str, PyUnicode_Check)
    str(const std::string &s) : object(PyUnicode_FromStringAndSize(s.data(), static_cast<ssize_t>(s.size())), stolen_t{})
    {
        if (!m_ptr)
            throw error_already_set();
    }
    str(const char *s = "") : str(std::string(s)) {}
    operator std::string() const
    {
        ssize_t n;
        const char *p = PyUnicode_AsUTF8AndSize(m_ptr, &n);
        if (!p)
            throw error_already_set();
        return std::string(p, static_cast<size_t>(n));
    }
};
class int_ : public object
{
  public:
    MINIPB_OBJ(int_, PyLong_Check)
    int_(long long v) : object(PyLong_FromLongLong(v), stolen_t{}) {}
};
class float_ : public object
{
  public:
    MINIPB_OBJ(float_, PyFloat_Check)
    float_(double v) : object(PyFloat_FromDouble(v), stolen_t{}) {}
};
class bool_ : public object
{
  public:
    MINIPB_OBJ(bool_, PyBool_Check)
    bool_(bool v) : object(v ? Py_True : Py_False, borrowed_t{}) {}
};
class iterable : public object
{
  public:
    static bool can_iter(PyObject *p)
    {
        PyObject *it = PyObject_GetIter(p);
        if (!it)
            PyErr_Clear();
        Py_XDECREF(it);
        return it != nullptr;
    }
    MINIPB_OBJ(iterable, can_iter)
};
class sequence : public object
{
  public:
    MINIPB_OBJ(sequence, PySequence_Check)
    size_t size() const { return static_cast<size_t>(PySequence_Size(m_ptr)); }
};
class slice : public object
{
  public:
    MINIPB_OBJ(slice, PySlice_Check)
    bool compute(size_t length, size_t *start, size_t *stop, size_t *step, size_t *slicelength) const
    {
        ssize_t a, b, c, n;
        bool ok = compute(static_cast<ssize_t>(length), &a, &b, &c, &n);
        *start = static_cast<size_t>(a), *stop = static_cast<size_t>(b), *step = static_cast<size_t>(c);
        *slicelength = static_cast<size_t>(n);
        return ok;
    }
    bool compute(ssize_t length, ssize_t *start, ssize_t *stop, ssize_t *step, ssize_t *slicelength) const
    {
        return PySlice_GetIndicesEx(m_ptr, length, start, stop, step, slicelength) == 0;
    }
};
class item_accessor
{
  public:
    item_accessor(handle o, ssize_t i) : o(o), i(i) {}
    object get() const
    {
        PyObject *r = PySequence_GetItem(o.ptr(), i);
        if (!r)
            throw error_already_set();
        return reinterpret_steal<object>(r);
    }
    template <class T> T cast() const { return get().template cast<T>(); }
    operator object() const { return get(); }

  private:
    handle o;
    ssize_t i;
};
class tuple : public object
{
  public:
    MINIPB_OBJ(tuple, PyTuple_Check)
    explicit tuple(size_t n = 0) : object(PyTuple_New(static_cast<ssize_t>(n)), stolen_t{}) {}
    size_t size() const { return static_cast<size_t>(PyTuple_Size(m_ptr)); }
    bool empty() const { return size() == 0; }
    template <class I, class = std::enable_if_t<std::is_integral<I>::value>> item_accessor operator[](I i) const
    {
        return item_accessor(*this, static_cast<ssize_t>(i));
    }
};
class list : public object
{
  public:
    MINIPB_OBJ(list, PyList_Check)
    explicit list(size_t n = 0) : object(PyList_New(static_cast<ssize_t>(n)), stolen_t{}) {}
    size_t size() const { return static_cast<size_t>(PyList_Size(m_ptr)); }
    template <class I, class = std::enable_if_t<std::is_integral<I>::value>> item_accessor operator[](I i) const
    {
        return item_accessor(*this, static_cast<ssize_t>(i));
    }
    template <class T> void append(T &&v) const;
};
class dict : public object
{
  public:
    MINIPB_OBJ(dict, PyDict_Check)
    dict() : object(PyDict_New(), stolen_t{}) {}
    size_t size() const { return static_cast<size_t>(PyDict_Size(m_ptr)); }
};
class args : public tuple
{
  public:
    using tuple::tuple;
};
class kwargs : public dict
{
  public:
    using dict::dict;
};
class function : public object
{
  public:
    MINIPB_OBJ(function, PyCallable_Check)
};
class iterator : public object
{
  public:
    MINIPB_OBJ(iterator, PyIter_Check)
};
class buffer : public object
{
  public:
    MINIPB_OBJ(buffer, PyObject_CheckBuffer)
};

// ------------------------------------------------------------------ type registry
namespace detail
{
struct instance
{
    PyObject_HEAD;
    void *value;
    std::shared_ptr<void> *holder; // owning; null when only a reference
    std::vector<PyObject *> *patients;
    PyObject *weaklist;
};
struct type_rec
{
    PyTypeObject *type = nullptr;
    std::string full_name;
    bool shared = false; // declared with a std::shared_ptr holder
    std::vector<bool (*)(PyObject *)> implicit;
    bool (*get_buffer)(void *, Py_buffer *, PyObject *) = nullptr;
};
inline std::unordered_map<std::type_index, type_rec *> &types()
{
    static auto *m = new std::unordered_map<std::type_index, type_rec *>();
    return *m;
}
inline std::unordered_multimap<const void *, instance *> &instances()
{
    static auto *m = new std::unordered_multimap<const void *, instance *>();
    return *m;
}
inline type_rec *find_type(const std::type_info &t)
{
    auto it = types().find(std::type_index(t));
    return it == types().end() ? nullptr : it->second;
}
inline void register_instance(instance *i) { instances().emplace(i->value, i); }
inline void unregister_instance(instance *i)
{
    auto r = instances().equal_range(i->value);
    for (auto it = r.first; it != r.second; ++it)
        if (it->second == i)
        {
            instances().erase(it);
            return;
        }
}
inline PyObject *inst_new(PyTypeObject *t, PyObject *, PyObject *)
{
    auto *i = reinterpret_cast<instance *>(t->tp_alloc(t, 0));
    if (i)
    {
        i->value = nullptr;
        i->holder = nullptr;
        i->patients = nullptr;
        i->weaklist = nullptr;
    }
    return reinterpret_cast<PyObject *>(i);
}
inline int inst_init(PyObject *self, PyObject *, PyObject *)
{
    PyErr_Format(PyExc_TypeError, "%s: No constructor defined!", Py_TYPE(self)->tp_name);
    return -1;
}
inline void clear_value(instance *i)
{
    if (i->value)
        unregister_instance(i);
    auto *h = i->holder;
    i->holder = nullptr;
    i->value = nullptr;
    delete h;
}
inline void inst_dealloc(PyObject *self)
{
    auto *i = reinterpret_cast<instance *>(self);
    PyObject *t, *v, *tb;
    PyErr_Fetch(&t, &v, &tb);
    if (i->weaklist)
        PyObject_ClearWeakRefs(self);
    clear_value(i);
    auto *p = i->patients;
    i->patients = nullptr;
    PyTypeObject *ty = Py_TYPE(self);
    ty->tp_free(self);
    Py_DECREF(ty);
    if (p)
    {
        for (auto *o : *p)
            Py_DECREF(o);
        delete p;
    }
    PyErr_Restore(t, v, tb);
}
inline type_rec *rec_of(PyTypeObject *t)
{
    for (auto &e : types())
        if (PyType_IsSubtype(t, e.second->type))
            return e.second;
    return nullptr;
}
inline int inst_getbuffer(PyObject *self, Py_buffer *view, int)
{
    type_rec *r = rec_of(Py_TYPE(self));
    auto *i = reinterpret_cast<instance *>(self);
    if (!r || !r->get_buffer || !i->value)
    {
        PyErr_SetString(PyExc_BufferError, "pybind11_getbuffer(): Internal error");
        return -1;
    }
    return r->get_buffer(i->value, view, self) ? 0 : -1;
}
inline void keep_alive_impl(handle nurse, handle patient)
{
    if (!nurse || !patient || nurse.is_none() || patient.is_none())
        return;
    if (!rec_of(Py_TYPE(nurse.ptr())))
        pybind11_fail("keep_alive: the nurse is not a bound type");
    auto *i = reinterpret_cast<instance *>(nurse.ptr());
    if (!i->patients)
        i->patients = new std::vector<PyObject *>();
    Py_INCREF(patient.ptr());
    i->patients->push_back(patient.ptr());
}

// ------------------------------------------------------------------ casters
template <class T, class SFINAE = void> struct type_caster; // generic (bound classes) at the end
template <class T> using make_caster = type_caster<intrinsic_t<T>>;

template <class T> struct is_opaque : std::false_type
{
};

template <class R> return_value_policy policy_override(return_value_policy p)
{
    using B = remove_cvref_t_<R>;
    return !std::is_lvalue_reference<R>::value && !std::is_pointer<R>::value && std::is_class<B>::value ? return_value_policy::move
                                                                                                        : p;
}
template <class T, class U> decltype(auto) forward_like_(U &&u)
{
    if constexpr (std::is_lvalue_reference<T>::value)
        return static_cast<std::remove_reference_t<U> &>(u);
    else
        return std::move(u);
}

// values held inside the caster
template <class T> struct value_caster
{
    T value{};
    template <class A> A get()
    {
        if constexpr (std::is_pointer<A>::value)
            return &value;
        else if constexpr (std::is_lvalue_reference<A>::value)
            return value;
        else if constexpr (std::is_rvalue_reference<A>::value)
            return std::move(value);
        else
            return std::move(value);
    }
};

template <> struct type_caster<bool> : value_caster<bool>
{
    bool load(handle src, bool convert)
    {
        if (!src)
            return false;
        if (src.ptr() == Py_True || src.ptr() == Py_False)
        {
            value = src.ptr() == Py_True;
            return true;
        }
        const char *tn = Py_TYPE(src.ptr())->tp_name;
        if (convert || !std::strcmp(tn, "numpy.bool_") || !std::strcmp(tn, "numpy.bool"))
        {
            ssize_t res = -1;
            if (src.is_none())
                res = 0;
            else if (Py_TYPE(src.ptr())->tp_as_number && Py_TYPE(src.ptr())->tp_as_number->nb_bool)
                res = Py_TYPE(src.ptr())->tp_as_number->nb_bool(src.ptr());
            if (res == 0 || res == 1)
            {
                value = res == 1;
                return true;
            }
            PyErr_Clear();
        }
        return false;
    }
    static handle cast(bool v, return_value_policy, handle) { return handle(v ? Py_True : Py_False).inc_ref(); }
};
template <class T>
struct type_caster<T, std::enable_if_t<std::is_integral<T>::value && !std::is_same<T, bool>::value && !std::is_same<T, char>::value>>
    : value_caster<T>
{
    bool load(handle src, bool convert)
    {
        if (!src || PyFloat_Check(src.ptr()))
            return false;
        if (!convert && !PyLong_Check(src.ptr()) && !PyIndex_Check(src.ptr()))
            return false;
        object idx;
        handle o = src;
        if (!PyLong_Check(src.ptr()))
        {
            PyObject *p = PyNumber_Index(src.ptr());
            if (!p)
            {
                PyErr_Clear();
                if (!convert)
                    return false;
            }
            else
            {
                idx = reinterpret_steal<object>(p);
                o = idx;
            }
        }
        bool err;
        if constexpr (std::is_unsigned<T>::value)
        {
            unsigned long long v = PyLong_Check(o.ptr()) ? PyLong_AsUnsignedLongLong(o.ptr()) : static_cast<unsigned long long>(-1);
            err = (v == static_cast<unsigned long long>(-1) && PyErr_Occurred()) || !PyLong_Check(o.ptr());
            if (!err && v > static_cast<unsigned long long>(std::numeric_limits<T>::max()))
                return false;
            this->value = static_cast<T>(v);
        }
        else
        {
            long long v = PyLong_Check(o.ptr()) ? PyLong_AsLongLong(o.ptr()) : -1;
            err = (v == -1 && PyErr_Occurred()) || !PyLong_Check(o.ptr());
            if (!err && (v > static_cast<long long>(std::numeric_limits<T>::max()) || v < static_cast<long long>(std::numeric_limits<T>::min())))
                return false;
            this->value = static_cast<T>(v);
        }
        if (err)
        {
            PyErr_Clear();
            if (convert && PyNumber_Check(o.ptr()) && !PyLong_Check(o.ptr()))
            {
                object t = reinterpret_steal<object>(PyNumber_Long(o.ptr()));
                PyErr_Clear();
                return t ? load(t, false) : false;
            }
            return false;
        }
        return true;
    }
    static handle cast(T v, return_value_policy, handle)
    {
        if constexpr (std::is_unsigned<T>::value)
            return PyLong_FromUnsignedLongLong(v);
        else
            return PyLong_FromLongLong(v);
    }
};
template <class T> struct type_caster<T, std::enable_if_t<std::is_floating_point<T>::value>> : value_caster<T>
{
    bool load(handle src, bool convert)
    {
        if (!src || (!convert && !PyFloat_Check(src.ptr())))
            return false;
        double v = PyFloat_AsDouble(src.ptr());
        if (v == -1.0 && PyErr_Occurred())
        {
            PyErr_Clear();
            if (convert && PyNumber_Check(src.ptr()))
            {
                object t = reinterpret_steal<object>(PyNumber_Float(src.ptr()));
                PyErr_Clear();
                return t ? load(t, false) : false;
            }
            return false;
        }
        this->value = static_cast<T>(v);
        return true;
    }
    static handle cast(T v, return_value_policy, handle) { return PyFloat_FromDouble(static_cast<double>(v)); }
};
inline bool load_string(handle src, std::string &out)
{
    if (!src)
        return false;
    if (PyUnicode_Check(src.ptr()))
    {
        ssize_t n;
        const char *p = PyUnicode_AsUTF8AndSize(src.ptr(), &n);
        if (!p)
        {
            PyErr_Clear();
            return false;
        }
        out.assign(p, static_cast<size_t>(n));
        return true;
    }
    if (PyBytes_Check(src.ptr()))
    {
        out.assign(PyBytes_AS_STRING(src.ptr()), static_cast<size_t>(PyBytes_GET_SIZE(src.ptr())));
        return true;
    }
    if (PyByteArray_Check(src.ptr()))
    {
        out.assign(PyByteArray_AS_STRING(src.ptr()), static_cast<size_t>(PyByteArray_GET_SIZE(src.ptr())));
        return true;
    }
    return false;
}
template <> struct type_caster<std::string> : value_caster<std::string>
{
    bool load(handle src, bool) { return load_string(src, value); }
    static handle cast(const std::string &s, return_value_policy, handle)
    {
        PyObject *p = PyUnicode_DecodeUTF8(s.data(), static_cast<ssize_t>(s.size()), nullptr);
        if (!p)
            throw error_already_set();
        return p;
    }
};
template <> struct type_caster<std::string_view> : value_caster<std::string_view>
{
    std::string hold;
    bool load(handle src, bool)
    {
        bool r = load_string(src, hold);
        value = hold;
        return r;
    }
    static handle cast(std::string_view s, return_value_policy p, handle h)
    {
        return type_caster<std::string>::cast(std::string(s), p, h);
    }
};
template <> struct type_caster<char>
{
    std::string hold;
    bool isnone = false;
    char one = 0;
    bool load(handle src, bool convert)
    {
        if (src.is_none() && convert)
        {
            isnone = true;
            return true;
        }
        return load_string(src, hold);
    }
    template <class A> A get()
    {
        if constexpr (std::is_pointer<A>::value)
            return isnone ? nullptr : const_cast<A>(hold.c_str());
        else
        {
            if (isnone || hold.empty())
                throw value_error("Cannot convert empty string to a character");
            if (hold.size() == 2 && static_cast<unsigned char>(hold[0]) >= 0xC2 && static_cast<unsigned char>(hold[0]) <= 0xC3)
                one = static_cast<char>(((hold[0] & 3) << 6) | (hold[1] & 0x3F));
            else if (hold.size() != 1)
                throw value_error("Expected a character, but multi-character string found");
            else
                one = hold[0];
            return one;
        }
    }
    static handle cast(char c, return_value_policy, handle)
    {
        PyObject *p = PyUnicode_DecodeLatin1(&c, 1, nullptr);
        if (!p)
            throw error_already_set();
        return p;
    }
    static handle cast(const char *s, return_value_policy p, handle h)
    {
        if (!s)
            return none().release();
        return type_caster<std::string>::cast(std::string(s), p, h);
    }
};
template <class T> struct type_caster<T, std::enable_if_t<std::is_base_of<handle, T>::value>>
{
    T value{};
    template <class U = T> bool load(handle src, bool)
    {
        if constexpr (std::is_same<T, handle>::value)
        {
            value = src;
            return static_cast<bool>(src);
        }
        else if constexpr (std::is_same<T, object>::value)
        {
            value = reinterpret_borrow<object>(src);
            return static_cast<bool>(src);
        }
        else
        {
            if (!src || !T::check_(src))
                return false;
            value = reinterpret_borrow<T>(src);
            return true;
        }
    }
    template <class A> A get()
    {
        if constexpr (std::is_lvalue_reference<A>::value)
            return value;
        else
            return std::move(value);
    }
    static handle cast(const handle &h, return_value_policy, handle) { return handle(h).inc_ref(); }
};
inline bool is_seq(handle src) { return src && PySequence_Check(src.ptr()) && !PyUnicode_Check(src.ptr()) && !PyBytes_Check(src.ptr()); }
template <class F> bool each(handle src, F f)
{
    ssize_t n = PySequence_Size(src.ptr());
    if (n < 0)
    {
        PyErr_Clear();
        return false;
    }
    for (ssize_t i = 0; i < n; i++)
    {
        PyObject *p = PySequence_GetItem(src.ptr(), i);
        if (!p)
            throw error_already_set();
        object o = reinterpret_steal<object>(p);
        if (!f(o))
            return false;
    }
    return true;
}
template <class C> handle cast_list(C &&c, size_t n, return_value_policy policy, handle parent)
{
    using V = typename remove_cvref_t_<C>::value_type;
    if (!std::is_lvalue_reference<C>::value)
        policy = policy_override<V>(policy);
    list l(n);
    ssize_t i = 0;
    for (auto &&v : c)
    {
        handle h = make_caster<V>::cast(forward_like_<C>(v), policy, parent);
        if (!h)
            return handle();
        PyList_SET_ITEM(l.ptr(), i++, h.ptr());
    }
    return l.release();
}
template <class T, class A> struct type_caster<std::vector<T, A>, std::enable_if_t<!is_opaque<std::vector<T, A>>::value>>
    : value_caster<std::vector<T, A>>
{
    bool load(handle src, bool convert)
    {
        if (!is_seq(src))
            return false;
        this->value.clear();
        return each(src, [&](handle o) {
            make_caster<T> c;
            if (!c.load(o, convert))
                return false;
            this->value.push_back(c.template get<T>());
            return true;
        });
    }
    template <class U> static handle cast(U &&v, return_value_policy p, handle parent) { return cast_list(std::forward<U>(v), v.size(), p, parent); }
};
template <class T> struct type_caster<std::list<T>> : value_caster<std::list<T>>
{
    bool load(handle src, bool convert)
    {
        if (!is_seq(src))
            return false;
        this->value.clear();
        return each(src, [&](handle o) {
            make_caster<T> c;
            if (!c.load(o, convert))
                return false;
            this->value.push_back(c.template get<T>());
            return true;
        });
    }
    template <class U> static handle cast(U &&v, return_value_policy p, handle parent) { return cast_list(std::forward<U>(v), v.size(), p, parent); }
};
template <class T, size_t N> struct type_caster<std::array<T, N>> : value_caster<std::array<T, N>>
{
    bool load(handle src, bool convert)
    {
        if (!is_seq(src) || PySequence_Size(src.ptr()) != static_cast<ssize_t>(N))
            return false;
        size_t i = 0;
        return each(src, [&](handle o) {
            make_caster<T> c;
            if (!c.load(o, convert))
                return false;
            this->value[i++] = c.template get<T>();
            return true;
        });
    }
    template <class U> static handle cast(U &&v, return_value_policy p, handle parent) { return cast_list(std::forward<U>(v), v.size(), p, parent); }
};
template <class M> struct map_caster : value_caster<M>
{
    using K = typename M::key_type;
    using V = typename M::mapped_type;
    bool load(handle src, bool convert)
    {
        if (!src || !PyDict_Check(src.ptr()))
            return false;
        this->value.clear();
        PyObject *k, *v;
        ssize_t pos = 0;
        while (PyDict_Next(src.ptr(), &pos, &k, &v))
        {
            make_caster<K> kc;
            make_caster<V> vc;
            if (!kc.load(k, convert) || !vc.load(v, convert))
                return false;
            this->value.emplace(kc.template get<K>(), vc.template get<V>());
        }
        return true;
    }
    template <class U> static handle cast(U &&m, return_value_policy p, handle parent)
    {
        dict d;
        for (auto &&e : m)
        {
            object k = reinterpret_steal<object>(make_caster<K>::cast(e.first, policy_override<K>(p), parent));
            object v = reinterpret_steal<object>(make_caster<V>::cast(forward_like_<U>(e.second), policy_override<V>(p), parent));
            if (!k || !v || PyDict_SetItem(d.ptr(), k.ptr(), v.ptr()) != 0)
                throw error_already_set();
        }
        return d.release();
    }
};
template <class K, class V> struct type_caster<std::map<K, V>> : map_caster<std::map<K, V>>
{
};
template <class K, class V, class H> struct type_caster<std::unordered_map<K, V, H>> : map_caster<std::unordered_map<K, V, H>>
{
};
template <class A, class B> struct type_caster<std::pair<A, B>>
{
    std::tuple<make_caster<A>, make_caster<B>> c;
    bool load(handle src, bool convert)
    {
        if (!is_seq(src) || PySequence_Size(src.ptr()) != 2)
            return false;
        object x = reinterpret_steal<object>(PySequence_GetItem(src.ptr(), 0)), y = reinterpret_steal<object>(PySequence_GetItem(src.ptr(), 1));
        return std::get<0>(c).load(x, convert) && std::get<1>(c).load(y, convert);
    }
    std::pair<A, B> v;
    template <class R> R get()
    {
        v = std::pair<A, B>(std::get<0>(c).template get<A>(), std::get<1>(c).template get<B>());
        if constexpr (std::is_lvalue_reference<R>::value)
            return v;
        else
            return std::move(v);
    }
    template <class U> static handle cast(U &&p, return_value_policy pol, handle parent)
    {
        tuple t(2);
        PyTuple_SET_ITEM(t.ptr(), 0, make_caster<A>::cast(forward_like_<U>(p.first), policy_override<A>(pol), parent).ptr());
        PyTuple_SET_ITEM(t.ptr(), 1, make_caster<B>::cast(forward_like_<U>(p.second), policy_override<B>(pol), parent).ptr());
        return t.release();
    }
};
template <class... T> struct type_caster<std::tuple<T...>>
{
    template <class U, size_t... I> static handle cast_(U &&u, return_value_policy pol, handle parent, std::index_sequence<I...>)
    {
        tuple t(sizeof...(T));
        (PyTuple_SET_ITEM(t.ptr(), I, make_caster<T>::cast(forward_like_<U>(std::get<I>(u)), policy_override<T>(pol), parent).ptr()), ...);
        return t.release();
    }
    template <class U> static handle cast(U &&u, return_value_policy pol, handle parent)
    {
        return cast_(std::forward<U>(u), pol, parent, std::index_sequence_for<T...>{});
    }
};
template <class T> struct type_caster<std::optional<T>> : value_caster<std::optional<T>>
{
    bool load(handle src, bool convert)
    {
        if (!src)
            return false;
        if (src.is_none())
            return true;
        make_caster<T> c;
        if (!c.load(src, convert))
            return false;
        this->value.emplace(c.template get<T>());
        return true;
    }
    template <class U> static handle cast(U &&v, return_value_policy p, handle parent)
    {
        if (!v)
            return none().release();
        return make_caster<T>::cast(*std::forward<U>(v), policy_override<T>(p), parent);
    }
};
template <> struct type_caster<std::nullopt_t>
{
    static handle cast(std::nullopt_t, return_value_policy, handle) { return none().release(); }
};
template <> struct type_caster<std::nullptr_t>
{
    static handle cast(std::nullptr_t, return_value_policy, handle) { return none().release(); }
};

// bound classes
template <class T> struct class_ops
{
    static void *copy(const void *p)
    {
        if constexpr (std::is_copy_constructible<T>::value)
            return new T(*static_cast<const T *>(p));
        else
            throw cast_error("return_value_policy = copy, but the object is non-copyable!");
    }
    static void *move(const void *p)
    {
        if constexpr (std::is_move_constructible<T>::value)
            return new T(std::move(*const_cast<T *>(static_cast<const T *>(p))));
        else
            return copy(p);
    }
    static std::shared_ptr<void> own(void *p)
    {
        return std::shared_ptr<void>(p, [](void *q) {
            if constexpr (std::is_destructible<T>::value)
                delete static_cast<T *>(q);
        });
    }
};
inline handle find_registered(const void *p, type_rec *r)
{
    auto e = instances().equal_range(p);
    for (auto it = e.first; it != e.second; ++it)
        if (Py_TYPE(reinterpret_cast<PyObject *>(it->second)) == r->type)
            return handle(reinterpret_cast<PyObject *>(it->second)).inc_ref();
    return handle();
}
inline instance *make_instance(type_rec *r)
{
    auto *i = reinterpret_cast<instance *>(inst_new(r->type, nullptr, nullptr));
    if (!i)
        throw error_already_set();
    return i;
}
template <class T> std::pair<const void *, type_rec *> resolve(const T *p)
{
    if constexpr (std::is_polymorphic<T>::value)
        if (p)
            if (type_rec *r = find_type(typeid(*p)))
                return {dynamic_cast<const void *>(p), r};
    type_rec *r = find_type(typeid(T));
    if (!r)
        throw type_error(std::string("Unregistered type : ") + typeid(T).name());
    return {p, r};
}
template <class T, class SFINAE> struct type_caster
{
    static_assert(std::is_class<T>::value || std::is_enum<T>::value, "no conversion for this type");
    void *value = nullptr;
    object temp; // keeps an implicitly converted value alive
    bool isnone = false;
    bool load(handle src, bool convert)
    {
        type_rec *r = find_type(typeid(T));
        if (!src || !r)
            return false;
        if (src.is_none())
        {
            if (!convert)
                return false;
            isnone = true;
            return true;
        }
        if (PyObject_TypeCheck(src.ptr(), r->type))
        {
            value = reinterpret_cast<instance *>(src.ptr())->value;
            temp = reinterpret_borrow<object>(src);
            return value != nullptr;
        }
        if (convert)
        {
            static bool busy = false; // pybind11: implicit conversions do not nest
            for (auto f : r->implicit)
            {
                if (busy || !f(src.ptr()))
                    continue;
                busy = true;
                PyObject *a = PyTuple_Pack(1, src.ptr());
                PyObject *o = PyObject_Call(reinterpret_cast<PyObject *>(r->type), a, nullptr);
                Py_DECREF(a);
                busy = false;
                if (!o)
                {
                    PyErr_Clear();
                    continue;
                }
                object t = reinterpret_steal<object>(o);
                if (load(t, false))
                    return true;
            }
        }
        return false;
    }
    template <class A> A get()
    {
        if constexpr (std::is_pointer<A>::value)
            return static_cast<T *>(value);
        else
        {
            if (!value)
                throw reference_cast_error();
            if constexpr (std::is_rvalue_reference<A>::value)
                return std::move(*static_cast<T *>(value));
            else
                return *static_cast<T *>(value);
        }
    }
    static handle cast_impl(const T *src, return_value_policy policy, handle parent)
    {
        if (!src)
            return none().release();
        auto pr = resolve<T>(src);
        if (handle h = find_registered(pr.first, pr.second))
            return h;
        instance *i = make_instance(pr.second);
        object guard = reinterpret_steal<object>(reinterpret_cast<PyObject *>(i));
        switch (policy)
        {
        case return_value_policy::automatic:
        case return_value_policy::take_ownership:
            i->value = const_cast<void *>(pr.first);
            i->holder = new std::shared_ptr<void>(class_ops<T>::own(i->value));
            break;
        case return_value_policy::copy:
            i->value = class_ops<T>::copy(src);
            i->holder = new std::shared_ptr<void>(class_ops<T>::own(i->value));
            break;
        case return_value_policy::move:
            i->value = class_ops<T>::move(src);
            i->holder = new std::shared_ptr<void>(class_ops<T>::own(i->value));
            break;
        case return_value_policy::automatic_reference:
        case return_value_policy::reference:
            i->value = const_cast<void *>(pr.first);
            break;
        case return_value_policy::reference_internal:
            i->value = const_cast<void *>(pr.first);
            keep_alive_impl(guard, parent);
            break;
        }
        register_instance(i);
        return guard.release();
    }
    static handle cast(const T &src, return_value_policy policy, handle parent)
    {
        if (policy == return_value_policy::automatic || policy == return_value_policy::automatic_reference)
            policy = return_value_policy::copy;
        return cast_impl(&src, policy, parent);
    }
    static handle cast(T &&src, return_value_policy, handle parent) { return cast_impl(&src, return_value_policy::move, parent); }
    static handle cast(const T *src, return_value_policy policy, handle parent)
    {
        if (policy == return_value_policy::automatic)
            policy = return_value_policy::take_ownership;
        else if (policy == return_value_policy::automatic_reference)
            policy = return_value_policy::reference;
        return cast_impl(src, policy, parent);
    }
};
template <class T> struct type_caster<std::shared_ptr<T>>
{
    using U = std::remove_cv_t<T>;
    std::shared_ptr<T> value;
    bool load(handle src, bool convert)
    {
        type_caster<U> c;
        if (!c.load(src, convert))
            return false;
        if (c.isnone)
            return true;
        type_rec *r = find_type(typeid(U));
        if (!r->shared)
            throw cast_error("Unable to load a custom holder type from a default-holder instance");
        auto *i = reinterpret_cast<instance *>(c.temp.ptr());
        if (!i->holder)
            throw cast_error("Unable to cast from non-held to held instance (T& to Holder<T>)");
        value = std::shared_ptr<T>(*i->holder, static_cast<U *>(c.value));
        return true;
    }
    template <class A> A get()
    {
        if constexpr (std::is_lvalue_reference<A>::value)
            return value;
        else if constexpr (std::is_pointer<A>::value)
            return &value;
        else
            return std::move(value);
    }
    static handle cast(const std::shared_ptr<T> &src, return_value_policy, handle)
    {
        if (!src)
            return none().release();
        auto pr = resolve<U>(src.get());
        if (handle h = find_registered(pr.first, pr.second))
            return h;
        instance *i = make_instance(pr.second);
        i->value = const_cast<void *>(pr.first);
        i->holder = new std::shared_ptr<void>(std::const_pointer_cast<U>(src), i->value);
        register_instance(i);
        return reinterpret_cast<PyObject *>(i);
    }
};
template <class T, class D> struct type_caster<std::unique_ptr<T, D>>
{
    static handle cast(std::unique_ptr<T, D> &&src, return_value_policy, handle parent)
    {
        return type_caster<T>::cast_impl(src.release(), return_value_policy::take_ownership, parent);
    }
};
} // namespace detail

template <class T> T handle::cast() const
{
    if constexpr (std::is_same<T, object>::value)
        return reinterpret_borrow<object>(*this);
    else
    {
        detail::make_caster<T> c;
        if (!c.load(*this, true))
            throw cast_error("Unable to cast Python instance to C++ type");
        return c.template get<T>();
    }
}
template <class T> T cast(handle h) { return h.cast<T>(); }
template <class T, class = std::enable_if_t<!std::is_base_of<handle, remove_cvref_t_<T>>::value>>
object cast(T &&v, return_value_policy policy = return_value_policy::automatic_reference, handle parent = handle())
{
    if (policy == return_value_policy::automatic)
        policy = std::is_pointer<std::remove_reference_t<T>>::value ? return_value_policy::take_ownership
                 : std::is_lvalue_reference<T>::value              ? return_value_policy::copy
                                                                   : return_value_policy::move;
    else if (policy == return_value_policy::automatic_reference)
        policy = std::is_pointer<std::remove_reference_t<T>>::value ? return_value_policy::reference
                 : std::is_lvalue_reference<T>::value              ? return_value_policy::copy
                                                                   : return_value_policy::move;
    return reinterpret_steal<object>(detail::make_caster<T>::cast(std::forward<T>(v), policy, parent));
}
template <class T> object to_object(T &&v)
{
    if constexpr (std::is_base_of<handle, remove_cvref_t_<T>>::value)
        return reinterpret_borrow<object>(v);
    else
        return pybind11::cast(std::forward<T>(v));
}
template <class... A> tuple make_tuple(A &&...a)
{
    std::array<object, sizeof...(A)> v{{to_object(std::forward<A>(a))...}};
    tuple t(sizeof...(A));
    for (size_t i = 0; i < v.size(); i++)
    {
        if (!v[i])
            throw cast_error("make_tuple(): unable to convert an argument to a Python object");
        PyTuple_SET_ITEM(t.ptr(), static_cast<ssize_t>(i), v[i].release().ptr());
    }
    return t;
}
template <class T> void list::append(T &&v) const
{
    object o = to_object(std::forward<T>(v));
    PyList_Append(m_ptr, o.ptr());
}
template <class... A> object handle::operator()(A &&...a) const
{
    tuple t = make_tuple(std::forward<A>(a)...);
    PyObject *r = PyObject_CallObject(m_ptr, t.ptr());
    if (!r)
        throw error_already_set();
    return reinterpret_steal<object>(r);
}
template <class T> bool isinstance(handle h)
{
    if constexpr (std::is_base_of<handle, T>::value)
        return T::check_(h);
    else
    {
        auto *r = detail::find_type(typeid(T));
        return r && PyObject_TypeCheck(h.ptr(), r->type);
    }
}

// ------------------------------------------------------------------ attributes of definitions
struct arg_v;
struct arg
{
    explicit arg(const char *n) : name(n) {}
    template <class T> arg_v operator=(T &&v) const;
    arg &noconvert(bool b = true)
    {
        no_convert = b;
        return *this;
    }
    arg &none(bool b = true)
    {
        allow_none = b;
        return *this;
    }
    const char *name;
    bool no_convert = false, allow_none = true;
};
struct arg_v : arg
{
    arg_v(const arg &a, object v) : arg(a), value(std::move(v)) {}
    object value;
};
template <class T> arg_v arg::operator=(T &&v) const { return arg_v(*this, to_object(std::forward<T>(v))); }
struct is_operator
{
};
struct is_method
{
    handle cls;
};
struct doc
{
    const char *value;
    explicit doc(const char *v) : value(v) {}
};
struct buffer_protocol
{
};
struct dynamic_attr
{
};
struct module_local
{
    explicit module_local(bool = true) {}
};
template <size_t N, size_t P> struct keep_alive
{
};
template <class...> struct call_guard
{
};
struct gil_scoped_release
{
};
struct gil_scoped_acquire
{
};
struct const_tag
{
};
static constexpr auto const_ = std::true_type{};
template <class... A> struct overload_cast_impl
{
    template <class R> constexpr auto operator()(R (*f)(A...)) const -> decltype(f) { return f; }
    template <class R, class C> constexpr auto operator()(R (C::*f)(A...), std::false_type = {}) const -> decltype(f) { return f; }
    template <class R, class C> constexpr auto operator()(R (C::*f)(A...) const, std::true_type) const -> decltype(f) { return f; }
};
template <class... A> static constexpr overload_cast_impl<A...> overload_cast{};

// ------------------------------------------------------------------ functions
namespace detail
{
struct arg_rec
{
    std::string name;
    object value;
    bool no_convert = false;
    bool allow_none = true;
};
struct call;
struct func_rec
{
    std::string name;
    std::function<handle(call &)> impl;
    size_t nargs = 0;
    bool is_operator = false, is_ctor = false, method = false;
    return_value_policy policy = return_value_policy::automatic;
    std::vector<arg_rec> args;
    std::vector<std::pair<size_t, size_t>> keep;
    std::unique_ptr<func_rec> next;
    PyMethodDef def{};
};
struct call
{
    func_rec &f;
    std::vector<handle> args;
    std::vector<bool> convert;
    std::vector<object> hold;
    handle parent;
};
inline func_rec *TRY_NEXT_MARK() { return reinterpret_cast<func_rec *>(1); }
inline handle try_next() { return handle(reinterpret_cast<PyObject *>(1)); }

inline void translate_exception()
{
    try
    {
        throw;
    }
    catch (error_already_set &e)
    {
        e.restore();
    }
    catch (const builtin_exception &e)
    {
        e.set_error();
    }
    catch (const std::bad_alloc &e)
    {
        PyErr_SetString(PyExc_MemoryError, e.what());
    }
    catch (const std::domain_error &e)
    {
        PyErr_SetString(PyExc_ValueError, e.what());
    }
    catch (const std::invalid_argument &e)
    {
        PyErr_SetString(PyExc_ValueError, e.what());
    }
    catch (const std::length_error &e)
    {
        PyErr_SetString(PyExc_ValueError, e.what());
    }
    catch (const std::out_of_range &e)
    {
        PyErr_SetString(PyExc_IndexError, e.what());
    }
    catch (const std::range_error &e)
    {
        PyErr_SetString(PyExc_ValueError, e.what());
    }
    catch (const std::overflow_error &e)
    {
        PyErr_SetString(PyExc_OverflowError, e.what());
    }
    catch (const std::exception &e)
    {
        PyErr_SetString(PyExc_RuntimeError, e.what());
    }
    catch (...)
    {
        PyErr_SetString(PyExc_RuntimeError, "Caught an unknown exception!");
    }
}
inline PyObject *dispatch(PyObject *self, PyObject *args_in, PyObject *kw_in)
{
    auto *first = static_cast<func_rec *>(PyCapsule_GetPointer(self, "minipb"));
    const size_t n_in = static_cast<size_t>(PyTuple_GET_SIZE(args_in));
    bool overloaded = first->next != nullptr;
    handle parent = n_in ? handle(PyTuple_GET_ITEM(args_in, 0)) : handle();
    handle result = try_next();
    if (first->is_ctor)
    {
        if (!parent || !rec_of(Py_TYPE(parent.ptr())))
        {
            PyErr_SetString(PyExc_TypeError, "__init__(self, ...) called with invalid or missing `self` argument");
            return nullptr;
        }
        if (reinterpret_cast<instance *>(parent.ptr())->value)
        {
            Py_RETURN_NONE; // already initialised
        }
    }
    try
    {
        for (int pass = overloaded ? 0 : 1; pass < 2 && result.ptr() == try_next().ptr(); pass++)
            for (func_rec *f = first; f; f = f->next.get())
            {
                call c{*f, {}, {}, {}, parent};
                size_t pos = f->nargs;
                if (n_in > pos)
                    continue;
                if (n_in < pos && f->args.size() < pos)
                    continue;
                size_t copied = 0, used_kw = 0;
                bool bad = false;
                for (; copied < n_in; ++copied)
                {
                    const arg_rec *ar = copied < f->args.size() ? &f->args[copied] : nullptr;
                    if (kw_in && ar && !ar->name.empty() && PyDict_GetItemString(kw_in, ar->name.c_str()))
                    {
                        bad = true;
                        break;
                    }
                    handle a = PyTuple_GET_ITEM(args_in, static_cast<ssize_t>(copied));
                    if (ar && !ar->allow_none && a.is_none())
                    {
                        bad = true;
                        break;
                    }
                    c.args.push_back(a);
                    c.convert.push_back(pass == 1 && !(ar && ar->no_convert));
                }
                if (bad)
                    continue;
                for (; copied < pos; ++copied)
                {
                    const arg_rec &ar = f->args[copied];
                    handle v;
                    if (kw_in && !ar.name.empty())
                        v = PyDict_GetItemString(kw_in, ar.name.c_str());
                    if (v)
                        used_kw++;
                    else if (ar.value)
                        v = ar.value;
                    if (!v || (!ar.allow_none && v.is_none()))
                        break;
                    c.args.push_back(v);
                    c.convert.push_back(pass == 1 && !ar.no_convert);
                }
                if (copied < pos)
                    continue;
                if (kw_in && static_cast<size_t>(PyDict_Size(kw_in)) != used_kw)
                    continue;
                for (auto &a : c.args)
                    c.hold.push_back(reinterpret_borrow<object>(a));
                try
                {
                    result = f->impl(c);
                }
                catch (reference_cast_error &)
                {
                    result = try_next();
                }
                if (result.ptr() != try_next().ptr())
                {
                    if (result)
                        for (auto &k : f->keep)
                        {
                            auto get = [&](size_t i) { return i == 0 ? result : i <= c.args.size() ? c.args[i - 1] : handle(); };
                            keep_alive_impl(get(k.first), get(k.second));
                        }
                    break;
                }
            }
    }
    catch (...)
    {
        translate_exception();
        return nullptr;
    }
    if (result.ptr() == try_next().ptr())
    {
        if (first->is_operator)
        {
            Py_RETURN_NOTIMPLEMENTED;
        }
        PyErr_Format(PyExc_TypeError, "%s(): incompatible %s arguments.", first->name.c_str(), first->is_ctor ? "constructor" : "function");
        return nullptr;
    }
    if (!result)
    {
        if (!PyErr_Occurred())
            PyErr_SetString(PyExc_TypeError, "Unable to convert function return value to a Python type!");
        return nullptr;
    }
    if (first->is_ctor && !reinterpret_cast<instance *>(parent.ptr())->value)
    {
        PyErr_Format(PyExc_TypeError, "%s.__init__() must be called when overriding __init__", Py_TYPE(parent.ptr())->tp_name);
        Py_DECREF(result.ptr());
        return nullptr;
    }
    return result.ptr();
}

// extras
inline void add_extra(func_rec &) {}
inline void apply_extra(func_rec &f, const arg &a) { f.args.push_back({a.name, object(), a.no_convert, a.allow_none}); }
inline void apply_extra(func_rec &f, const arg_v &a) { f.args.push_back({a.name, a.value, a.no_convert, a.allow_none}); }
inline void apply_extra(func_rec &f, const is_operator &) { f.is_operator = true; }
inline void apply_extra(func_rec &, const is_method &) {}
inline void apply_extra(func_rec &, const char *) {}
inline void apply_extra(func_rec &, const doc &) {}
inline void apply_extra(func_rec &f, return_value_policy p) { f.policy = p; }
template <size_t N, size_t P> void apply_extra(func_rec &f, const keep_alive<N, P> &) { f.keep.emplace_back(N, P); }
template <class... G> void apply_extra(func_rec &, const call_guard<G...> &) {}

template <class F> struct sig : sig<decltype(&F::operator())>
{
};
template <class R, class... A> struct sig<R (*)(A...)>
{
    using ret = R;
    using args = std::tuple<A...>;
};
template <class R, class... A> struct sig<R (*)(A...) noexcept> : sig<R (*)(A...)>
{
};
template <class R, class C, class... A> struct sig<R (C::*)(A...)> : sig<R (*)(A...)>
{
};
template <class R, class C, class... A> struct sig<R (C::*)(A...) const> : sig<R (*)(A...)>
{
};
template <class R, class C, class... A> struct sig<R (C::*)(A...) noexcept> : sig<R (*)(A...)>
{
};
template <class R, class C, class... A> struct sig<R (C::*)(A...) const noexcept> : sig<R (*)(A...)>
{
};
template <class C> struct loader;
template <class... A> struct loader<std::tuple<A...>>
{
    std::tuple<make_caster<A>...> c;
    template <size_t... I> bool load(call &cl, std::index_sequence<I...>)
    {
        return (std::get<I>(c).load(cl.args[I], cl.convert[I]) && ...);
    }
    bool load(call &cl) { return load(cl, std::index_sequence_for<A...>{}); }
    template <class F, size_t... I> decltype(auto) run(F &f, std::index_sequence<I...>)
    {
        return f(std::get<I>(c).template get<A>()...);
    }
    template <class F> decltype(auto) run(F &f) { return run(f, std::index_sequence_for<A...>{}); }
};
template <class F> std::unique_ptr<func_rec> make_rec(const char *name, F f)
{
    using S = sig<F>;
    using L = loader<typename S::args>;
    using R = typename S::ret;
    auto r = std::make_unique<func_rec>();
    r->name = name;
    r->nargs = std::tuple_size<typename S::args>::value;
    r->impl = [f](call &c) mutable -> handle {
        L l;
        if (!l.load(c))
            return try_next();
        if constexpr (std::is_void<R>::value)
        {
            l.run(f);
            return none().release();
        }
        else
            return make_caster<R>::cast(l.run(f), policy_override<R>(c.f.policy), c.parent);
    };
    return r;
}
// member function pointers become functions taking the bound class
template <class T, class F> auto adapt(F f)
{
    return f;
}
template <class T, class R, class C, class... A> auto adapt(R (C::*f)(A...))
{
    static_assert(std::is_base_of<C, T>::value || std::is_same<C, T>::value, "not a member of the bound class");
    return [f](T &self, A... a) -> R { return (self.*f)(std::forward<A>(a)...); };
}
template <class T, class R, class C, class... A> auto adapt(R (C::*f)(A...) const)
{
    static_assert(std::is_base_of<C, T>::value || std::is_same<C, T>::value, "not a member of the bound class");
    return [f](const T &self, A... a) -> R { return (self.*f)(std::forward<A>(a)...); };
}
template <class T, class R, class C, class... A> auto adapt(R (C::*f)(A...) noexcept)
{
    return [f](T &self, A... a) -> R { return (self.*f)(std::forward<A>(a)...); };
}
template <class T, class R, class C, class... A> auto adapt(R (C::*f)(A...) const noexcept)
{
    return [f](const T &self, A... a) -> R { return (self.*f)(std::forward<A>(a)...); };
}
inline func_rec *existing(handle scope, const char *name)
{
    PyObject *d = PyType_Check(scope.ptr()) ? reinterpret_cast<PyTypeObject *>(scope.ptr())->tp_dict : PyModule_GetDict(scope.ptr());
    PyObject *o = PyDict_GetItemString(d, name);
    if (!o)
        return nullptr;
    if (PyInstanceMethod_Check(o))
        o = PyInstanceMethod_GET_FUNCTION(o);
    else if (Py_TYPE(o) == &PyStaticMethod_Type)
    {
        PyObject *g = PyObject_GetAttrString(o, "__func__");
        Py_XDECREF(g);
        o = g;
    }
    if (!o || !PyCFunction_Check(o))
        return nullptr;
    PyObject *self = PyCFunction_GET_SELF(o);
    if (!self || !PyCapsule_IsValid(self, "minipb"))
        return nullptr;
    return static_cast<func_rec *>(PyCapsule_GetPointer(self, "minipb"));
}
inline object make_callable(func_rec *r, handle scope)
{
    r->def.ml_name = r->name.c_str();
    r->def.ml_meth = reinterpret_cast<PyCFunction>(reinterpret_cast<void *>(&dispatch));
    r->def.ml_flags = METH_VARARGS | METH_KEYWORDS;
    PyObject *cap = PyCapsule_New(r, "minipb", nullptr);
    object mod;
    if (scope)
        mod = reinterpret_steal<object>(PyObject_GetAttrString(scope.ptr(), PyType_Check(scope.ptr()) ? "__module__" : "__name__"));
    PyObject *f = PyCFunction_NewEx(&r->def, cap, mod.ptr());
    Py_DECREF(cap);
    return reinterpret_steal<object>(f);
}
inline void install(handle scope, std::unique_ptr<func_rec> r, bool is_static)
{
    if (func_rec *e = existing(scope, r->name.c_str()))
    {
        while (e->next)
            e = e->next.get();
        e->next = std::move(r);
        return;
    }
    std::string name = r->name;
    object f = make_callable(r.get(), scope);
    r.release(); // lives as long as the module
    if (PyType_Check(scope.ptr()))
    {
        if (is_static)
            f = reinterpret_steal<object>(PyStaticMethod_New(f.ptr()));
        else
            f = reinterpret_steal<object>(PyInstanceMethod_New(f.ptr()));
    }
    setattr(scope, name.c_str(), f);
    if (name == "__eq__" && PyType_Check(scope.ptr()) && !PyDict_GetItemString(reinterpret_cast<PyTypeObject *>(scope.ptr())->tp_dict, "__hash__"))
        setattr(scope, "__hash__", none());
}
template <class... E> void finish(func_rec &r, bool method, const E &...e)
{
    (apply_extra(r, e), ...);
    if (method && !r.args.empty())
        r.args.insert(r.args.begin(), arg_rec{"self", object(), false, true});
}
template <class T> void take(instance *i, std::shared_ptr<T> p)
{
    i->value = p.get();
    i->holder = new std::shared_ptr<void>(std::move(p));
    register_instance(i);
}
template <class T> void own_value(instance *i, T *p)
{
    i->value = p;
    i->holder = new std::shared_ptr<void>(class_ops<T>::own(p));
    register_instance(i);
}
template <class... A> struct init_t
{
};
template <class F> struct factory_t
{
    F f;
};
template <class G, class S> struct pickle_t
{
    G get;
    S set;
};
template <class T, class... A> struct construct
{
    static T *make(A... a)
    {
        if constexpr (std::is_constructible<T, A...>::value)
            return new T(std::forward<A>(a)...);
        else
            return new T{std::forward<A>(a)...};
    }
};
template <class T, class Ret> void adopt(instance *i, Ret &&r)
{
    using D = remove_cvref_t_<Ret>;
    if constexpr (std::is_pointer<D>::value)
    {
        if (!r)
            throw type_error("pybind11::init(): factory function returned nullptr");
        own_value<T>(i, r);
    }
    else if constexpr (std::is_same<D, std::shared_ptr<T>>::value)
        take<T>(i, std::forward<Ret>(r));
    else if constexpr (std::is_same<D, std::unique_ptr<T>>::value)
        own_value<T>(i, r.release());
    else
        own_value<T>(i, new T(std::forward<Ret>(r)));
}
// operators
struct self_t
{
};
enum class opk
{
    eq,
    ne,
    lt,
    gt,
    le,
    ge,
    add,
    sub,
    mul,
    div,
    iadd,
    isub,
    imul,
    idiv,
    neg,
    hash
};
template <opk K, class L, class R> struct op_
{
};
#define MINIPB_OP(sym, k)                                                                                                        \
    inline op_<opk::k, self_t, self_t> operator sym(const self_t &, const self_t &) { return {}; }                               \
    template <class T> op_<opk::k, self_t, T> operator sym(const self_t &, const T &) { return {}; }
MINIPB_OP(==, eq)
MINIPB_OP(!=, ne)
MINIPB_OP(<, lt)
MINIPB_OP(>, gt)
MINIPB_OP(<=, le)
MINIPB_OP(>=, ge)
MINIPB_OP(+, add)
MINIPB_OP(-, sub)
MINIPB_OP(*, mul)
MINIPB_OP(/, div)
MINIPB_OP(+=, iadd)
MINIPB_OP(-=, isub)
MINIPB_OP(*=, imul)
MINIPB_OP(/=, idiv)
#undef MINIPB_OP
inline op_<opk::neg, self_t, void> operator-(const self_t &) { return {}; }
inline op_<opk::hash, self_t, void> hash(const self_t &) { return {}; }
} // namespace detail
static const detail::self_t self = detail::self_t();
using detail::hash;

template <class... A> detail::init_t<A...> init() { return {}; }
template <class F> detail::factory_t<F> init(F f) { return {std::move(f)}; }
template <class G, class S> detail::pickle_t<G, S> pickle(G g, S s) { return {std::move(g), std::move(s)}; }

class cpp_function : public object
{
  public:
    cpp_function() = default;
    cpp_function(std::nullptr_t) {}
    cpp_function(object o) : object(std::move(o)) {}
    template <class F, class... E> cpp_function(F f, const E &...e)
    {
        auto r = detail::make_rec("", std::move(f));
        detail::finish(*r, false, e...);
        *static_cast<object *>(this) = detail::make_callable(r.release(), handle());
    }
};

class module_ : public object
{
  public:
    MINIPB_OBJ(module_, PyModule_Check)
    template <class F, class... E> module_ &def(const char *name, F f, const E &...e)
    {
        auto r = detail::make_rec(name, std::move(f));
        detail::finish(*r, false, e...);
        detail::install(*this, std::move(r), false);
        return *this;
    }
    const char *&doc()
    {
        static const char *d;
        return d;
    }
};
using module = module_;

template <class T, class... Opt> class class_ : public object
{
    static constexpr bool shared_holder = (std::is_same<Opt, std::shared_ptr<T>>::value || ...);

  public:
    template <class... E> class_(handle scope, const char *name, const E &...)
    {
        auto *r = new detail::type_rec();
        object mod = scope.attr("__name__");
        r->full_name = std::string(str(mod)) + "." + name;
        r->shared = shared_holder;
        static PyMemberDef members[] = {{"__weaklistoffset__", T_PYSSIZET, offsetof(detail::instance, weaklist), READONLY, nullptr},
                                        {nullptr, 0, 0, 0, nullptr}};
        constexpr bool buf = (std::is_same<E, buffer_protocol>::value || ...);
        PyType_Slot slots[8];
        int n = 0;
        slots[n++] = {Py_tp_new, reinterpret_cast<void *>(&detail::inst_new)};
        slots[n++] = {Py_tp_init, reinterpret_cast<void *>(&detail::inst_init)};
        slots[n++] = {Py_tp_dealloc, reinterpret_cast<void *>(&detail::inst_dealloc)};
        slots[n++] = {Py_tp_members, members};
        if (buf)
            slots[n++] = {Py_bf_getbuffer, reinterpret_cast<void *>(&detail::inst_getbuffer)};
        slots[n] = {0, nullptr};
        PyType_Spec spec{r->full_name.c_str(), static_cast<int>(sizeof(detail::instance)), 0, Py_TPFLAGS_DEFAULT | Py_TPFLAGS_BASETYPE, slots};
        PyObject *t = PyType_FromSpec(&spec);
        if (!t)
            throw error_already_set();
        r->type = reinterpret_cast<PyTypeObject *>(t);
        Py_INCREF(t); // the registry's own reference: bound types live as long as the process
        m_ptr = t;
        rec = r;
        detail::types()[std::type_index(typeid(T))] = r;
        setattr(scope, name, *this);
    }
    template <class F, class... E> class_ &def(const char *name, F f, const E &...e)
    {
        auto r = detail::make_rec(name, detail::adapt<T>(std::move(f)));
        detail::finish(*r, true, e...);
        detail::install(*this, std::move(r), false);
        return *this;
    }
    template <class F, class... E> class_ &def_static(const char *name, F f, const E &...e)
    {
        auto r = detail::make_rec(name, std::move(f));
        detail::finish(*r, false, e...);
        detail::install(*this, std::move(r), true);
        return *this;
    }
    template <class... A, class... E> class_ &def(const detail::init_t<A...> &, const E &...e)
    {
        return ctor(&detail::construct<T, A...>::make, e...);
    }
    template <class F, class... E> class_ &def(const detail::factory_t<F> &fac, const E &...e) { return ctor(fac.f, e...); }
    template <class G, class S, class... E> class_ &def(const detail::pickle_t<G, S> &p, const E &...e)
    {
        def("__getstate__", p.get);
        ctor_named("__setstate__", p.set, e...);
        return *this;
    }
    template <detail::opk K, class L, class R, class... E> class_ &def(const detail::op_<K, L, R> &, const E &...e)
    {
        using detail::opk;
        using O = std::conditional_t<std::is_same<R, detail::self_t>::value, T, R>;
        if constexpr (K == opk::eq)
            return def("__eq__", [](const T &a, const O &b) { return a == b; }, is_operator(), e...);
        else if constexpr (K == opk::ne)
            return def("__ne__", [](const T &a, const O &b) { return a != b; }, is_operator(), e...);
        else if constexpr (K == opk::lt)
            return def("__lt__", [](const T &a, const O &b) { return a < b; }, is_operator(), e...);
        else if constexpr (K == opk::gt)
            return def("__gt__", [](const T &a, const O &b) { return a > b; }, is_operator(), e...);
        else if constexpr (K == opk::le)
            return def("__le__", [](const T &a, const O &b) { return a <= b; }, is_operator(), e...);
        else if constexpr (K == opk::ge)
            return def("__ge__", [](const T &a, const O &b) { return a >= b; }, is_operator(), e...);
        else if constexpr (K == opk::add)
            return def("__add__", [](const T &a, const O &b) { return a + b; }, is_operator(), e...);
        else if constexpr (K == opk::sub)
            return def("__sub__", [](const T &a, const O &b) { return a - b; }, is_operator(), e...);
        else if constexpr (K == opk::mul)
            return def("__mul__", [](const T &a, const O &b) { return a * b; }, is_operator(), e...);
        else if constexpr (K == opk::div)
            return def("__truediv__", [](const T &a, const O &b) { return a / b; }, is_operator(), e...);
        else if constexpr (K == opk::iadd)
            return def("__iadd__", [](T &a, const O &b) -> T & { return a += b; }, is_operator(), e...);
        else if constexpr (K == opk::isub)
            return def("__isub__", [](T &a, const O &b) -> T & { return a -= b; }, is_operator(), e...);
        else if constexpr (K == opk::imul)
            return def("__imul__", [](T &a, const O &b) -> T & { return a *= b; }, is_operator(), e...);
        else if constexpr (K == opk::idiv)
            return def("__itruediv__", [](T &a, const O &b) -> T & { return a /= b; }, is_operator(), e...);
        else if constexpr (K == opk::neg)
            return def("__neg__", [](const T &a) { return -a; }, is_operator(), e...);
        else
            return def("__hash__", [](const T &a) { return std::hash<T>()(a); }, is_operator(), e...);
    }
    template <class C, class D, class... E> class_ &def_readwrite(const char *name, D C::*m, const E &...)
    {
        return prop(name, getter([m](const T &s) -> const D & { return s.*m; }), setter([m](T &s, const D &v) { s.*m = v; }));
    }
    template <class C, class D, class... E> class_ &def_readonly(const char *name, D C::*m, const E &...)
    {
        return prop(name, getter([m](const T &s) -> const D & { return s.*m; }), object());
    }
    template <class G, class S, class... E> class_ &def_property(const char *name, G g, S s, const E &...e)
    {
        return prop(name, getter(std::move(g), e...), setter(std::move(s)));
    }
    template <class G, class... E> class_ &def_property_readonly(const char *name, G g, const E &...e)
    {
        return prop(name, getter(std::move(g), e...), object());
    }

  private:
    template <class F, class... E> object getter(F f, const E &...e)
    {
        if constexpr (std::is_same<F, std::nullptr_t>::value)
            return object();
        else if constexpr (std::is_base_of<handle, F>::value)
            return f;
        else
        {
            auto r = detail::make_rec("", detail::adapt<T>(std::move(f)));
            r->policy = return_value_policy::reference_internal;
            detail::finish(*r, true, e...);
            return detail::make_callable(r.release(), *this);
        }
    }
    template <class F> object setter(F f)
    {
        if constexpr (std::is_same<F, std::nullptr_t>::value)
            return object();
        else if constexpr (std::is_base_of<handle, F>::value)
            return f;
        else
        {
            auto r = detail::make_rec("", detail::adapt<T>(std::move(f)));
            return detail::make_callable(r.release(), *this);
        }
    }
    class_ &prop(const char *name, object g, object s)
    {
        PyObject *p = PyObject_CallFunctionObjArgs(reinterpret_cast<PyObject *>(&PyProperty_Type), g ? g.ptr() : Py_None,
                                                   s ? s.ptr() : Py_None, Py_None, nullptr);
        if (!p)
            throw error_already_set();
        setattr(*this, name, reinterpret_steal<object>(p));
        return *this;
    }
    template <class F, class... E> class_ &ctor(F f, const E &...e) { return ctor_named("__init__", std::move(f), e...); }
    template <class F, class... E> class_ &ctor_named(const char *name, F f, const E &...e)
    {
        using S = detail::sig<F>;
        using L = detail::loader<typename S::args>;
        auto r = std::make_unique<detail::func_rec>();
        r->name = name;
        r->is_ctor = true;
        r->nargs = std::tuple_size<typename S::args>::value + 1;
        detail::type_rec *tr = rec;
        r->impl = [f, tr](detail::call &c) mutable -> handle {
            handle self = c.args[0];
            if (!PyObject_TypeCheck(self.ptr(), tr->type))
                return detail::try_next();
            c.args.erase(c.args.begin());
            c.convert.erase(c.convert.begin());
            L l;
            bool ok = l.load(c);
            c.args.insert(c.args.begin(), self);
            c.convert.insert(c.convert.begin(), true);
            if (!ok)
                return detail::try_next();
            detail::adopt<T>(reinterpret_cast<detail::instance *>(self.ptr()), l.run(f));
            return none().release();
        };
        detail::finish(*r, true, e...);
        detail::install(*this, std::move(r), false);
        return *this;
    }
    detail::type_rec *rec = nullptr;
};

template <class In, class Out> void implicitly_convertible()
{
    detail::type_rec *r = detail::find_type(typeid(Out));
    if (!r)
        pybind11_fail("implicitly_convertible: Unable to find type");
    r->implicit.push_back([](PyObject *o) -> bool { return detail::make_caster<In>().load(o, false); });
}

// ------------------------------------------------------------------ iterators
namespace detail
{
template <class It, class Sen> struct iter_state
{
    It it;
    Sen end;
    bool first_or_done;
};
} // namespace detail
template <return_value_policy P = return_value_policy::reference_internal, class It, class Sen, class... E>
iterator make_iterator(It first, Sen last, E &&...)
{
    using State = detail::iter_state<It, Sen>;
    using V = decltype(*std::declval<It &>());
    if (!detail::find_type(typeid(State)))
    {
        object mod = reinterpret_steal<object>(PyImport_ImportModule("builtins"));
        // a type known only to the registry
        object scope = reinterpret_steal<object>(PyModule_New("minipb_iterators"));
        class_<State>(scope, "iterator")
            .def("__iter__", [](State &s) -> State & { return s; })
            .def(
                "__next__",
                [](State &s) -> V {
                    if (!s.first_or_done)
                        ++s.it;
                    else
                        s.first_or_done = false;
                    if (s.it == s.end)
                    {
                        s.first_or_done = true;
                        throw stop_iteration();
                    }
                    return *s.it;
                },
                P);
    }
    return reinterpret_steal<iterator>(detail::type_caster<State>::cast(State{first, last, true}, return_value_policy::move, handle()));
}

// ------------------------------------------------------------------ opaque vectors
template <class Vec, class... Opt, class... E> class_<Vec, Opt...> bind_vector(handle scope, const char *name, const E &...e)
{
    using V = typename Vec::value_type;
    class_<Vec, Opt...> cl(scope, name, e...);
    if constexpr ((std::is_same<E, buffer_protocol>::value || ...))
    {
        detail::find_type(typeid(Vec))->get_buffer = [](void *p, Py_buffer *view, PyObject *self) {
            Vec &v = *static_cast<Vec *>(p);
            struct Info
            {
                ssize_t shape, stride;
            };
            auto *i = new Info{static_cast<ssize_t>(v.size()), static_cast<ssize_t>(sizeof(V))};
            static char fmt[2] = {sizeof(V) == 1 ? 'b' : 'i', 0};
            view->buf = v.data();
            view->obj = self;
            Py_INCREF(self);
            view->len = i->shape * i->stride;
            view->readonly = 0;
            view->itemsize = i->stride;
            view->format = fmt;
            view->ndim = 1;
            view->shape = &i->shape;
            view->strides = &i->stride;
            view->suboffsets = nullptr;
            view->internal = i; // freed with the process; views are short lived
            return true;
        };
        cl.def(init([](const buffer &b) {
            Py_buffer view;
            if (PyObject_GetBuffer(b.ptr(), &view, PyBUF_STRIDES | PyBUF_FORMAT) != 0)
                throw error_already_set();
            if (view.ndim != 1 || view.itemsize != static_cast<ssize_t>(sizeof(V)) || view.strides[0] % static_cast<ssize_t>(sizeof(V)))
            {
                PyBuffer_Release(&view);
                throw type_error("Only valid 1D buffers can be copied to a vector");
            }
            Vec v;
            for (ssize_t i = 0; i < view.shape[0]; i++)
                v.push_back(*reinterpret_cast<V *>(static_cast<char *>(view.buf) + i * view.strides[0]));
            PyBuffer_Release(&view);
            return v;
        }));
    }
    auto wrap = [](ssize_t i, size_t n) {
        if (i < 0)
            i += static_cast<ssize_t>(n);
        if (i < 0 || static_cast<size_t>(i) >= n)
            throw index_error();
        return static_cast<size_t>(i);
    };
    cl.def(init<>());
    cl.def(init<const Vec &>());
    cl.def(init([](const iterable &it) {
        Vec v;
        object i = reinterpret_steal<object>(PyObject_GetIter(it.ptr()));
        while (PyObject *o = PyIter_Next(i.ptr()))
            v.push_back(reinterpret_steal<object>(o).template cast<V>());
        if (PyErr_Occurred())
            throw error_already_set();
        return v;
    }));
    cl.def(self == self);
    cl.def(self != self);
    cl.def("count", [](const Vec &v, const V &x) { return std::count(v.begin(), v.end(), x); });
    cl.def("__contains__", [](const Vec &v, const V &x) { return std::find(v.begin(), v.end(), x) != v.end(); });
    cl.def("append", [](Vec &v, const V &x) { v.push_back(x); });
    cl.def("clear", [](Vec &v) { v.clear(); });
    cl.def("extend", [](Vec &v, const Vec &o) { v.insert(v.end(), o.begin(), o.end()); });
    cl.def("pop", [](Vec &v) {
        if (v.empty())
            throw index_error();
        V x = v.back();
        v.pop_back();
        return x;
    });
    cl.def("__getitem__", [wrap](const Vec &v, ssize_t i) { return v[wrap(i, v.size())]; });
    cl.def("__setitem__", [wrap](Vec &v, ssize_t i, const V &x) { v[wrap(i, v.size())] = x; });
    cl.def("__getitem__", [](const Vec &v, const slice &s) {
        size_t a, b, c, n;
        if (!s.compute(v.size(), &a, &b, &c, &n))
            throw error_already_set();
        Vec r;
        for (size_t i = 0; i < n; i++, a += c)
            r.push_back(v[a]);
        return r;
    });
    cl.def("__iter__", [](Vec &v) { return make_iterator(v.begin(), v.end()); }, keep_alive<0, 1>());
    cl.def("__bool__", [](const Vec &v) { return !v.empty(); });
    cl.def("__len__", [](const Vec &v) { return v.size(); });
    return cl;
}
} // namespace pybind11

#define PYBIND11_MAKE_OPAQUE(...)                                                                                                \
    namespace pybind11                                                                                                           \
    {                                                                                                                            \
    namespace detail                                                                                                             \
    {                                                                                                                            \
    template <> struct is_opaque<__VA_ARGS__> : std::true_type                                                                   \
    {                                                                                                                            \
    };                                                                                                                           \
    }                                                                                                                            \
    }

#define PYBIND11_MODULE(name, var)                                                                                               \
    static void minipb_init_##name(pybind11::module_ &);                                                                         \
    extern "C" __attribute__((visibility("default"))) PyObject *PyInit_##name()                                                  \
    {                                                                                                                            \
        static PyModuleDef def{PyModuleDef_HEAD_INIT, #name, nullptr, -1, nullptr, nullptr, nullptr, nullptr, nullptr};          \
        PyObject *m = PyModule_Create(&def);                                                                                     \
        if (!m)                                                                                                                  \
            return nullptr;                                                                                                      \
        pybind11::module_ mod = pybind11::reinterpret_borrow<pybind11::module_>(m);                                              \
        try                                                                                                                      \
        {                                                                                                                        \
            minipb_init_##name(mod);                                                                                             \
        }                                                                                                                        \
        catch (...)                                                                                                              \
        {                                                                                                                        \
            pybind11::detail::translate_exception();                                                                             \
            return nullptr;                                                                                                      \
        }                                                                                                                        \
        return m;                                                                                                                \
    }                                                                                                                            \
    static void minipb_init_##name([[maybe_unused]] pybind11::module_ &var)
