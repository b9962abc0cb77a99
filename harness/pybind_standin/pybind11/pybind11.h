// A stand-in for the part of pybind11 that the binding uses (and some more that
// a change to it might): pybind11 itself is not available offline. Same names,
// same meaning, on top of the CPython interface; no attempt at speed.
#pragma once
#include <Python.h>
#include <structmember.h>
#include <cstdint>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <optional>
#include <stdexcept>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <typeindex>
#include <utility>
#include <vector>

namespace pybind11 {
using ssize_t = Py_ssize_t;
using size_t = std::size_t;

// --- exceptions ---------------------------------------------------------
struct error_already_set : std::exception
{
    PyObject *t = nullptr, *v = nullptr, *b = nullptr;
    mutable std::string text;
    error_already_set() { PyErr_Fetch(&t, &v, &b); }
    error_already_set(const error_already_set& o) : t(o.t), v(o.v), b(o.b) { Py_XINCREF(t); Py_XINCREF(v); Py_XINCREF(b); }
    ~error_already_set() override { Py_XDECREF(t); Py_XDECREF(v); Py_XDECREF(b); }
    void restore() { PyErr_Restore(t, v, b); t = v = b = nullptr; }
    bool matches(PyObject* e) const { return t && PyErr_GivenExceptionMatches(t, e); }
    const char* what() const noexcept override { text = t ? ((PyTypeObject*)t)->tp_name : "?"; return text.c_str(); }
};
struct builtin_exception : std::runtime_error
{
    PyObject* type;
    builtin_exception(PyObject* e, const std::string& s) : std::runtime_error(s), type(e) {}
};
#define STANDIN_EXC(name, py) \
    struct name : builtin_exception { explicit name(const std::string& s = "") : builtin_exception(py, s) {} };
STANDIN_EXC(value_error, PyExc_ValueError)
STANDIN_EXC(type_error, PyExc_TypeError)
STANDIN_EXC(index_error, PyExc_IndexError)
STANDIN_EXC(key_error, PyExc_KeyError)
STANDIN_EXC(buffer_error, PyExc_BufferError)
STANDIN_EXC(import_error, PyExc_ImportError)
STANDIN_EXC(attribute_error, PyExc_AttributeError)
STANDIN_EXC(stop_iteration, PyExc_StopIteration)
STANDIN_EXC(cast_error, PyExc_RuntimeError)
STANDIN_EXC(reference_cast_error, PyExc_RuntimeError)
#undef STANDIN_EXC

// --- objects ------------------------------------------------------------
class object;
class handle
{
  protected:
    PyObject* m_ptr = nullptr;

  public:
    handle() = default;
    handle(PyObject* p) : m_ptr(p) {}
    PyObject* ptr() const { return m_ptr; }
    const handle& inc_ref() const { Py_XINCREF(m_ptr); return *this; }
    const handle& dec_ref() const { Py_XDECREF(m_ptr); return *this; }
    explicit operator bool() const { return m_ptr != nullptr; }
    bool is_none() const { return m_ptr == Py_None; }
    bool is(handle o) const { return m_ptr == o.m_ptr; }
    template<typename T> T cast() const;
    struct accessor attr(const char* n) const;
    struct accessor operator[](const char* k) const;
    struct accessor operator[](handle k) const;
    struct accessor operator[](size_t k) const;
    template<typename... A> object operator()(A&&... a) const;
    bool contains(const char* k) const;
    bool equal(handle o) const { return PyObject_RichCompareBool(m_ptr, o.m_ptr, Py_EQ) == 1; }
};
struct borrowed_t {};
struct stolen_t {};
class object : public handle
{
  public:
    object() = default;
    object(handle h, borrowed_t) : handle(h) { Py_XINCREF(m_ptr); }
    object(handle h, stolen_t) : handle(h) {}
    object(const object& o) : handle(o) { Py_XINCREF(m_ptr); }
    object(object&& o) noexcept : handle(o.m_ptr) { o.m_ptr = nullptr; }
    object& operator=(const object& o) { Py_XINCREF(o.m_ptr); Py_XDECREF(m_ptr); m_ptr = o.m_ptr; return *this; }
    object& operator=(object&& o) noexcept { std::swap(m_ptr, o.m_ptr); return *this; }
    ~object() { Py_XDECREF(m_ptr); }
    handle release() { handle h(m_ptr); m_ptr = nullptr; return h; }
};
template<typename T> T reinterpret_borrow(handle h) { return T(h, borrowed_t{}); }
template<typename T> T reinterpret_steal(handle h) { return T(h, stolen_t{}); }
inline object check(PyObject* p) { if (!p) throw error_already_set(); return object(p, stolen_t{}); }

struct accessor : object
{
    handle parent;
    object key;
    bool attribute;
    accessor(object value, handle p, object k, bool a) : object(std::move(value)), parent(p), key(std::move(k)), attribute(a) {}
    template<typename T> void operator=(const T& v) &&;
};
inline accessor handle::attr(const char* n) const
{
    return { check(PyObject_GetAttrString(m_ptr, n)), *this, check(PyUnicode_FromString(n)), true };
}
inline accessor handle::operator[](const char* k) const
{
    object key = check(PyUnicode_FromString(k));
    PyObject* v = PyObject_GetItem(m_ptr, key.ptr());
    if (!v) throw error_already_set();
    return { object(v, stolen_t{}), *this, key, false };
}
inline accessor handle::operator[](handle k) const
{
    return { check(PyObject_GetItem(m_ptr, k.ptr())), *this, object(k, borrowed_t{}), false };
}
inline accessor handle::operator[](size_t k) const
{
    object key = check(PyLong_FromSize_t(k));
    return { check(PyObject_GetItem(m_ptr, key.ptr())), *this, key, false };
}
inline bool handle::contains(const char* k) const
{
    object key = check(PyUnicode_FromString(k));
    const int r = PySequence_Contains(m_ptr, key.ptr());
    if (r < 0) throw error_already_set();
    return r == 1;
}

#define STANDIN_OBJ(name, test) \
    using object::object; \
    name(const object& o) : object(o) { if (m_ptr && !test(m_ptr)) throw type_error("not a " #name); } \
    static bool check_(handle h) { return h.ptr() && test(h.ptr()); }
#define STANDIN_ANY(p) (true)
class none : public object { public: none() : object(Py_None, borrowed_t{}) {} static bool check_(handle h) { return h.is_none(); } };
class str : public object
{
  public:
    STANDIN_OBJ(str, PyUnicode_Check)
    str(const char* s) : object(PyUnicode_FromString(s), stolen_t{}) {}
    str(const std::string& s) : object(PyUnicode_FromStringAndSize(s.data(), s.size()), stolen_t{}) {}
    explicit str(handle h) : object(PyObject_Str(h.ptr()), stolen_t{}) {}
    operator std::string() const { return PyUnicode_AsUTF8(m_ptr); }
};
class bytes : public object
{
  public:
    STANDIN_OBJ(bytes, PyBytes_Check)
    bytes(const char* s, size_t n) : object(PyBytes_FromStringAndSize(s, n), stolen_t{}) {}
};
class int_ : public object { public: STANDIN_OBJ(int_, PyLong_Check) int_(long v) : object(PyLong_FromLong(v), stolen_t{}) {} };
class bool_ : public object { public: STANDIN_OBJ(bool_, PyBool_Check) bool_(bool v) : object(PyBool_FromLong(v), stolen_t{}) {} };
class tuple : public object
{
  public:
    STANDIN_OBJ(tuple, PyTuple_Check)
    size_t size() const { return PyTuple_Size(m_ptr); }
};
class list : public object
{
  public:
    STANDIN_OBJ(list, PyList_Check)
    list() : object(PyList_New(0), stolen_t{}) {}
    size_t size() const { return PyList_Size(m_ptr); }
    template<typename T> void append(const T& v);
};
class dict : public object
{
  public:
    STANDIN_OBJ(dict, PyDict_Check)
    dict() : object(PyDict_New(), stolen_t{}) {}
    size_t size() const { return PyDict_Size(m_ptr); }
};
class args : public tuple { public: using tuple::tuple; };
class kwargs : public dict { public: using dict::dict; };
class sequence : public object { public: STANDIN_OBJ(sequence, PySequence_Check) size_t size() const { return PySequence_Size(m_ptr); } };
class function : public object { public: STANDIN_OBJ(function, PyCallable_Check) };

template<typename T> bool isinstance(handle h) { return T::check_(h); }
inline size_t len(handle h) { return PyObject_Size(h.ptr()); }
inline bool hasattr(handle h, const char* n) { return PyObject_HasAttrString(h.ptr(), n); }
inline object getattr(handle h, const char* n) { return h.attr(n); }
inline str repr(handle h) { return str(check(PyObject_Repr(h.ptr()))); }
template<typename... A> void print(A&&...) {}

// --- buffers and arrays --------------------------------------------------
struct buffer_info
{
    void* ptr = nullptr;
    ssize_t itemsize = 0, size = 0;
    std::string format;
    ssize_t ndim = 0;
    std::vector<ssize_t> shape, strides;
    bool readonly = false;
    std::shared_ptr<Py_buffer> view;
};
class buffer : public object
{
  public:
    STANDIN_OBJ(buffer, PyObject_CheckBuffer)
    buffer_info request(bool writable = false) const
    {
        std::shared_ptr<Py_buffer> b(new Py_buffer(), [](Py_buffer* p) { PyBuffer_Release(p); delete p; });
        if (PyObject_GetBuffer(m_ptr, b.get(), PyBUF_STRIDES | PyBUF_FORMAT | (writable ? PyBUF_WRITABLE : 0)))
            throw error_already_set();
        buffer_info i;
        i.ptr = b->buf;
        i.itemsize = b->itemsize;
        i.format = b->format ? b->format : "B";
        i.ndim = b->ndim;
        i.readonly = b->readonly;
        i.size = 1;
        for (int k = 0; k < b->ndim; ++k) {
            i.shape.push_back(b->shape[k]);
            i.strides.push_back(b->strides[k]);
            i.size *= b->shape[k];
        }
        i.view = b;
        return i;
    }
};
inline object import_(const char* n) { return check(PyImport_ImportModule(n)); }
class dtype : public object
{
  public:
    using object::object;
    ssize_t itemsize() const { object o = check(PyObject_GetAttrString(m_ptr, "itemsize")); return PyLong_AsSsize_t(o.ptr()); }
    char kind() const { object o = check(PyObject_GetAttrString(m_ptr, "kind")); return PyUnicode_AsUTF8(o.ptr())[0]; }
    char byteorder() const { object o = check(PyObject_GetAttrString(m_ptr, "byteorder")); return PyUnicode_AsUTF8(o.ptr())[0]; }
    template<typename T> static dtype of()
    {
        constexpr char k = std::is_floating_point_v<T> ? 'f' : std::is_same_v<T, bool> ? '?' : std::is_signed_v<T> ? 'i' : 'u';
        object o = check(PyObject_CallMethod(import_("numpy").ptr(), "dtype", "s", (std::string(1, k) + std::to_string(sizeof(T))).c_str()));
        return dtype(o.release(), stolen_t{});
    }
    bool is(const dtype& o) const { return equal(o); }
};
class array : public buffer
{
    ssize_t num(const char* n) const { object o = check(PyObject_GetAttrString(m_ptr, n)); return PyLong_AsSsize_t(o.ptr()); }
    ssize_t elem(const char* n, ssize_t i) const
    {
        object o = check(PyObject_GetAttrString(m_ptr, n));
        if (i < 0 || i >= PyTuple_Size(o.ptr())) throw index_error("invalid axis");
        return PyLong_AsSsize_t(PyTuple_GetItem(o.ptr(), i));
    }

  public:
    enum { c_style = 1, f_style = 2, forcecast = 16 };
    using buffer::buffer;
    array() = default;
    array(const object& o) : buffer() { static_cast<object&>(*this) = ensure(o, 0); if (!m_ptr) throw error_already_set(); }
    static bool check_(handle h)
    {
        object t = import_("numpy").attr("ndarray");
        return h.ptr() && PyObject_IsInstance(h.ptr(), t.ptr()) == 1;
    }
    // an array with the given properties, a copy only where there is no other way; null if impossible
    static array ensure(handle h, int flags = 0) { return make(h, flags, handle()); }
    static array make(handle h, int flags, handle dt)
    {
        object np = import_("numpy");
        object kw(PyDict_New(), stolen_t{});
        const char* order = flags & c_style ? "C" : flags & f_style ? "F" : "K";
        object o(PyUnicode_FromString(order), stolen_t{});
        PyDict_SetItemString(kw.ptr(), "order", o.ptr());
        if (dt) PyDict_SetItemString(kw.ptr(), "dtype", dt.ptr());
        object a(PyTuple_Pack(1, h.ptr()), stolen_t{});
        object f = np.attr("asarray");
        PyObject* r = PyObject_Call(f.ptr(), a.ptr(), kw.ptr());
        if (!r) PyErr_Clear();
        array out;
        static_cast<object&>(out) = object(r, stolen_t{});
        return out;
    }
    pybind11::dtype dtype() const { return pybind11::dtype(check(PyObject_GetAttrString(m_ptr, "dtype")).release(), stolen_t{}); }
    ssize_t size() const { return num("size"); }
    ssize_t itemsize() const { return num("itemsize"); }
    ssize_t nbytes() const { return size() * itemsize(); }
    ssize_t ndim() const { return num("ndim"); }
    ssize_t shape(ssize_t i) const { return elem("shape", i); }
    ssize_t strides(ssize_t i) const { return elem("strides", i); }
    int flags() const
    {
        object f = check(PyObject_GetAttrString(m_ptr, "flags"));
        object c = check(PyObject_GetAttrString(f.ptr(), "c_contiguous")), g = check(PyObject_GetAttrString(f.ptr(), "f_contiguous"));
        return (PyObject_IsTrue(c.ptr()) ? c_style : 0) | (PyObject_IsTrue(g.ptr()) ? f_style : 0);
    }
    bool writeable() const { object f = check(PyObject_GetAttrString(m_ptr, "flags")); return PyObject_IsTrue(check(PyObject_GetAttrString(f.ptr(), "writeable")).ptr()); }
    const void* data() const { return request().ptr; }
    void* mutable_data() { return request(true).ptr; }
    array squeeze() { array a; static_cast<object&>(a) = check(PyObject_CallMethod(m_ptr, "squeeze", nullptr)); return a; }
};
template<typename T, int Flags = array::forcecast> class array_t : public array
{
  public:
    using array::array;
    array_t() = default;
    array_t(const object& o) { static_cast<object&>(*this) = ensure(o); if (!m_ptr) throw error_already_set(); }
    static array_t ensure(handle h)
    {
        array_t out;
        static_cast<object&>(out) = make(h, Flags, pybind11::dtype::of<T>());
        return out;
    }
    const T* data() const { return static_cast<const T*>(array::data()); }
};

// --- registered types -----------------------------------------------------
struct Instance
{
    PyObject_HEAD
    PyObject* dict;
    void* value;
    void (*del)(void*);
};
inline std::map<std::type_index, PyTypeObject*>& types() { static std::map<std::type_index, PyTypeObject*> m; return m; }
template<typename T> PyTypeObject* type_of()
{
    auto it = types().find(typeid(T));
    return it == types().end() ? nullptr : it->second;
}
template<typename T> void hold(PyObject* self, T* v)
{
    auto* i = (Instance*)self;
    i->value = v;
    i->del = [](void* p) { delete static_cast<T*>(p); };
}

template<typename T, typename = void> struct caster
{
    static T& ref(handle h)
    {
        auto* t = type_of<T>();
        if (!t || !PyObject_TypeCheck(h.ptr(), t)) throw cast_error("Unable to cast Python instance to C++ type");
        auto* i = (Instance*)h.ptr();
        if (!i->value) throw cast_error("instance without a value");
        return *static_cast<T*>(i->value);
    }
    static T& load(handle h) { return ref(h); }
    template<typename U> static object put(U&& v)
    {
        auto* t = type_of<T>();
        if (!t) throw cast_error("Unable to convert C++ type to Python");
        object o = check(t->tp_alloc(t, 0));
        hold(o.ptr(), new T(std::forward<U>(v)));
        return o;
    }
};
template<> struct caster<bool>
{
    static bool load(handle h)
    {
        if (h.ptr() != Py_True && h.ptr() != Py_False) {
            // as pybind11: anything with a truth value of its own, numpy's bool included
            const int r = h.ptr() == Py_None ? 0 : (Py_TYPE(h.ptr())->tp_as_number && Py_TYPE(h.ptr())->tp_as_number->nb_bool) ? PyObject_IsTrue(h.ptr()) : -1;
            if (r < 0) { PyErr_Clear(); throw cast_error("Unable to cast to bool"); }
            return r;
        }
        return h.ptr() == Py_True;
    }
    static object put(bool v) { return object(PyBool_FromLong(v), stolen_t{}); }
};
template<typename T> struct caster<T, std::enable_if_t<std::is_integral_v<T> && !std::is_same_v<T, bool>>>
{
    static T load(handle h)
    {
        if (PyFloat_Check(h.ptr())) throw cast_error("Unable to cast a float to an integer");
        object i(PyNumber_Index(h.ptr()), stolen_t{});
        if (!i) { PyErr_Clear(); throw cast_error("Unable to cast to an integer"); }
        if constexpr (std::is_unsigned_v<T>) {
            const unsigned long long v = PyLong_AsUnsignedLongLong(i.ptr());
            if (PyErr_Occurred() || v > std::numeric_limits<T>::max()) { PyErr_Clear(); throw cast_error("integer out of range"); }
            return static_cast<T>(v);
        } else {
            const long long v = PyLong_AsLongLong(i.ptr());
            if (PyErr_Occurred() || v > (long long)std::numeric_limits<T>::max() || v < (long long)std::numeric_limits<T>::min()) {
                PyErr_Clear();
                throw cast_error("integer out of range");
            }
            return static_cast<T>(v);
        }
    }
    static object put(T v) { return check(std::is_unsigned_v<T> ? PyLong_FromUnsignedLongLong(v) : PyLong_FromLongLong(v)); }
};
template<typename T> struct caster<T, std::enable_if_t<std::is_floating_point_v<T>>>
{
    static T load(handle h)
    {
        const double v = PyFloat_AsDouble(h.ptr());
        if (PyErr_Occurred()) { PyErr_Clear(); throw cast_error("Unable to cast to a float"); }
        return static_cast<T>(v);
    }
    static object put(T v) { return check(PyFloat_FromDouble(v)); }
};
template<> struct caster<std::string>
{
    static std::string load(handle h)
    {
        if (PyBytes_Check(h.ptr())) return { PyBytes_AsString(h.ptr()), (size_t)PyBytes_Size(h.ptr()) };
        if (!PyUnicode_Check(h.ptr())) throw cast_error("Unable to cast to a string");
        Py_ssize_t n;
        const char* s = PyUnicode_AsUTF8AndSize(h.ptr(), &n);
        if (!s) { PyErr_Clear(); throw cast_error("Unable to cast to a string"); }
        return { s, (size_t)n };
    }
    static object put(const std::string& s) { return check(PyUnicode_DecodeUTF8(s.data(), s.size(), nullptr)); }
};
template<> struct caster<std::string_view>
{
    static object put(std::string_view s) { return caster<std::string>::put(std::string(s)); }
};
template<> struct caster<const char*>
{
    static object put(const char* s) { return s ? caster<std::string>::put(s) : object(Py_None, borrowed_t{}); }
};
template<> struct caster<char*> : caster<const char*> {};
template<typename T> struct caster<std::optional<T>>
{
    static std::optional<T> load(handle h) { if (h.is_none()) return std::nullopt; return caster<T>::load(h); }
    static object put(const std::optional<T>& v) { return v ? caster<T>::put(*v) : object(Py_None, borrowed_t{}); }
};
template<typename T> struct opaque : std::false_type {};
template<typename T> struct caster<std::vector<T>>
{
    static std::vector<T>& ref(handle h)
    {
        auto* t = type_of<std::vector<T>>();
        if (!t || !PyObject_TypeCheck(h.ptr(), t)) throw cast_error("Unable to cast to a vector");
        return *static_cast<std::vector<T>*>(((Instance*)h.ptr())->value);
    }
    static std::vector<T> load(handle h)
    {
        if (auto* t = type_of<std::vector<T>>(); t && PyObject_TypeCheck(h.ptr(), t))
            return ref(h);
        // a registered (opaque) vector has an implicit constructor from any iterable only where asked for
        if (opaque<std::vector<T>>::value && !PyList_Check(h.ptr()) && !PyTuple_Check(h.ptr()))
            throw cast_error("Unable to cast to a vector");
        object seq(PySequence_Fast(h.ptr(), ""), stolen_t{});
        if (!seq) { PyErr_Clear(); throw cast_error("Unable to cast to a vector"); }
        std::vector<T> out;
        for (Py_ssize_t i = 0; i < PySequence_Fast_GET_SIZE(seq.ptr()); ++i)
            out.push_back(caster<T>::load(PySequence_Fast_GET_ITEM(seq.ptr(), i)));
        return out;
    }
    static object put(const std::vector<T>& v)
    {
        if (auto* t = type_of<std::vector<T>>()) {
            object o = check(t->tp_alloc(t, 0));
            hold(o.ptr(), new std::vector<T>(v));
            return o;
        }
        object l = check(PyList_New(0));
        for (auto& x : v) PyList_Append(l.ptr(), caster<T>::put(x).ptr());
        return l;
    }
};
template<typename T> struct caster<T, std::enable_if_t<std::is_base_of_v<handle, T>>>
{
    static T load(handle h)
    {
        if constexpr (std::is_same_v<T, handle>) return h;
        else if constexpr (std::is_same_v<T, object>) return object(h, borrowed_t{});
        else if constexpr (std::is_same_v<T, array>) {
            if (!array::check_(h)) throw cast_error("not an array");
            return array(h, borrowed_t{});
        } else if constexpr (std::is_base_of_v<array, T>) {
            T a = T::ensure(h);
            if (!a) throw cast_error("not convertible to an array");
            return a;
        } else {
            if (!T::check_(h)) throw cast_error("wrong kind of object");
            return T(h, borrowed_t{});
        }
    }
    static object put(const T& v) { return object(v, borrowed_t{}); }
};
template<typename T> using bare = std::remove_cv_t<std::remove_reference_t<T>>;
template<typename T> object cast(T&& v) { return caster<std::decay_t<T>>::put(std::forward<T>(v)); }
template<typename T> T cast(handle h) { return caster<bare<T>>::load(h); }
template<typename T> T handle::cast() const
{
    return caster<bare<T>>::load(*this);
}
template<typename T> void list::append(const T& v) { PyList_Append(m_ptr, pybind11::cast(v).ptr()); }
template<typename T> void accessor::operator=(const T& v) &&
{
    object o = pybind11::cast(v);
    if (attribute) PyObject_SetAttr(parent.ptr(), key.ptr(), o.ptr());
    else PyObject_SetItem(parent.ptr(), key.ptr(), o.ptr());
}
template<typename... A> object handle::operator()(A&&... a) const
{
    object t = check(PyTuple_New(sizeof...(A)));
    size_t i = 0;
    ((PyTuple_SetItem(t.ptr(), i++, pybind11::cast(std::forward<A>(a)).release().ptr())), ...);
    return check(PyObject_CallObject(m_ptr, t.ptr()));
}

// --- functions ------------------------------------------------------------
struct arg
{
    const char* name;
    object def;
    explicit arg(const char* n) : name(n) {}
    arg& noconvert(bool = true) { return *this; }
    template<typename T> arg operator=(T&& v) const { arg a(*this); a.def = pybind11::cast(std::forward<T>(v)); return a; }
};
namespace literals { inline arg operator""_a(const char* n, size_t) { return arg(n); } }
struct dynamic_attr {};
struct buffer_protocol {};
struct module_local { explicit module_local(bool = true) {} };
struct arithmetic {};
struct is_method {};
struct kw_only {};
template<size_t, size_t> struct keep_alive {};
template<typename... T> struct call_guard { std::tuple<T...> t; };
enum class return_value_policy { automatic, automatic_reference, take_ownership, copy, move, reference, reference_internal };
struct gil_scoped_release { PyThreadState* s; gil_scoped_release() : s(PyEval_SaveThread()) {} ~gil_scoped_release() { PyEval_RestoreThread(s); } };
struct gil_scoped_acquire { PyGILState_STATE s; gil_scoped_acquire() : s(PyGILState_Ensure()) {} ~gil_scoped_acquire() { PyGILState_Release(s); } };

using Call = std::function<object(handle args, handle kwargs)>;
struct Function
{
    Call call;
    PyMethodDef def;
    std::string name;
};
inline PyObject* trampoline(PyObject* self, PyObject* a, PyObject* k)
{
    auto* f = static_cast<Function*>(PyCapsule_GetPointer(self, nullptr));
    try {
        return f->call(a, k).release().ptr();
    } catch (error_already_set& e) {
        e.restore();
    } catch (const builtin_exception& e) {
        PyErr_SetString(e.type, e.what());
    } catch (const std::bad_alloc& e) {
        PyErr_SetString(PyExc_MemoryError, e.what());
    } catch (const std::invalid_argument& e) {
        PyErr_SetString(PyExc_ValueError, e.what());
    } catch (const std::exception& e) {
        PyErr_SetString(PyExc_RuntimeError, e.what());
    }
    return nullptr;
}
inline object make_function(const std::string& name, Call c)
{
    auto* f = new Function{ std::move(c), {}, name };
    f->def = { f->name.c_str(), (PyCFunction)(void (*)())trampoline, METH_VARARGS | METH_KEYWORDS, nullptr };
    object cap = check(PyCapsule_New(f, nullptr, nullptr));
    return check(PyCFunction_New(&f->def, cap.ptr()));
}

// arguments: where a name is given, it may come as a keyword
template<typename T> struct holder
{
    using type = std::conditional_t<std::is_reference_v<decltype(caster<bare<T>>::load(handle()))>, bare<T>*, bare<T>>;
    type v;
    explicit holder(handle h) : v(get(h)) {}
    static type get(handle h)
    {
        if constexpr (std::is_pointer_v<type> && !std::is_pointer_v<bare<T>>) return &caster<bare<T>>::load(h);
        else return caster<bare<T>>::load(h);
    }
    decltype(auto) operator()()
    {
        if constexpr (std::is_pointer_v<type> && !std::is_pointer_v<bare<T>>) return (*v);
        else return (v);
    }
};
template<typename R, typename... A> struct signature
{
    template<typename F> static object call(F& f, handle a, handle k, const std::vector<arg>& names, size_t skip)
    {
        return go(f, a, k, names, skip, std::index_sequence_for<A...>{});
    }
    template<typename T> static constexpr bool is_args = std::is_same_v<bare<T>, args>;
    template<typename T> static constexpr bool is_kwargs = std::is_same_v<bare<T>, kwargs>;
    template<typename F, size_t... I>
    static object go(F& f, handle a, handle k, const std::vector<arg>& names, size_t skip, std::index_sequence<I...>)
    {
        const size_t given = PyTuple_Size(a.ptr());
        constexpr size_t fixed = (0 + ... + (is_args<A> || is_kwargs<A> ? 0 : 1));
        constexpr bool var = (false || ... || is_args<A>), kw = (false || ... || is_kwargs<A>);
        if (given > fixed && !var) throw type_error("incompatible function arguments: too many");
        std::vector<object> got;
        const std::tuple<bare<A>*...>* types_ = nullptr;
        (void)types_;
        size_t used = 0;
        auto fetch = [&](size_t i, bool va, bool kwa) {
            if (kwa) {
                object d = k ? object(k, borrowed_t{}) : check(PyDict_New());
                got.push_back(d);
            } else if (va) {
                got.push_back(check(PyTuple_GetSlice(a.ptr(), fixed < given ? fixed : given, given)));
            } else if (i < given) {
                got.push_back(object(PyTuple_GetItem(a.ptr(), i), borrowed_t{}));
            } else {
                const arg* n = i >= skip && i - skip < names.size() ? &names[i - skip] : nullptr;
                PyObject* v = n && k ? PyDict_GetItemString(k.ptr(), n->name) : nullptr;
                if (v) { got.push_back(object(v, borrowed_t{})); ++used; }
                else if (n && n->def) got.push_back(n->def);
                else throw type_error("incompatible function arguments: missing");
            }
        };
        (fetch(I, is_args<A>, is_kwargs<A>), ...);
        if (!kw && k && (size_t)PyDict_Size(k.ptr()) > used) throw type_error("incompatible function arguments: unknown keyword");
        try {
            std::tuple<holder<A>...> h{ holder<A>(got[I])... };
            return result(f, h, std::index_sequence<I...>{});
        } catch (const cast_error& e) {
            throw type_error(std::string("incompatible function arguments: ") + e.what());
        }
    }
    template<typename F, typename H, size_t... I> static object result(F& f, H& h, std::index_sequence<I...>)
    {
        if constexpr (std::is_void_v<R>) {
            f(static_cast<A>(std::get<I>(h)())...);
            return object(Py_None, borrowed_t{});
        } else
            return caster<std::decay_t<R>>::put(f(static_cast<A>(std::get<I>(h)())...));
    }
};
template<typename F> struct sig_of : sig_of<decltype(&F::operator())> {};
template<typename R, typename... A> struct sig_of<R (*)(A...)> { using type = signature<R, A...>; using ret = R; };
template<typename R, typename C, typename... A> struct sig_of<R (C::*)(A...)> { using type = signature<R, A...>; using ret = R; };
template<typename R, typename C, typename... A> struct sig_of<R (C::*)(A...) const> { using type = signature<R, A...>; using ret = R; };
template<typename R, typename C, typename... A> struct sig_of<R (C::*)(A...) const noexcept> { using type = signature<R, A...>; using ret = R; };

struct Extra
{
    std::vector<arg> names;
    void take(const arg& a) { names.push_back(a); }
    template<typename T> void take(const T&) {}
};
template<typename... E> Extra extras(const E&... e)
{
    Extra x;
    (x.take(e), ...);
    return x;
}
template<typename F> Call callable(F f, Extra x, size_t skip)
{
    return [f = std::move(f), x = std::move(x), skip](handle a, handle k) mutable {
        return sig_of<F>::type::call(f, a, k, x.names, skip);
    };
}
// a member function of (a base of) T as a function of T&
template<typename T, typename R, typename C, typename... A> auto as_function(R (C::*m)(A...))
{
    return [m](T& self, A... a) -> R { return (self.*m)(std::forward<A>(a)...); };
}
template<typename T, typename R, typename C, typename... A> auto as_function(R (C::*m)(A...) const)
{
    return [m](const T& self, A... a) -> R { return (self.*m)(std::forward<A>(a)...); };
}
template<typename T, typename F, typename = std::enable_if_t<!std::is_member_pointer_v<F>>> auto as_function(F f) { return f; }

template<typename... A> struct init_t {};
template<typename... A> init_t<A...> init() { return {}; }
template<typename F> struct factory_t { F f; };
template<typename F> factory_t<F> init(F f) { return { std::move(f) }; }

class module_ : public object
{
  public:
    using object::object;
    module_(const object& o) : object(o) {}
    static module_ import(const char* n) { return module_(import_(n)); }
    struct Doc { template<typename T> void operator=(const T&) {} };
    Doc doc() { return {}; }
    template<typename F, typename... E> module_& def(const char* name, F f, const E&... e)
    {
        PyObject_SetAttrString(m_ptr, name, make_function(name, callable(std::move(f), extras(e...), 0)).ptr());
        return *this;
    }
    struct Attr
    {
        handle m;
        std::string n;
        template<typename T> void operator=(const T& v) { PyObject_SetAttrString(m.ptr(), n.c_str(), pybind11::cast(v).ptr()); }
    };
    Attr attr(const char* n) { return { m_ptr, n }; }
};
using module = module_;

inline void instance_dealloc(PyObject* self)
{
    auto* i = (Instance*)self;
    PyTypeObject* t = Py_TYPE(self);
    if (i->value && i->del) i->del(i->value);
    Py_XDECREF(i->dict);
    t->tp_free(self);
    Py_DECREF(t);
}
inline PyObject* instance_new(PyTypeObject* t, PyObject*, PyObject*) { return t->tp_alloc(t, 0); }
inline object make_type(handle module, const char* name)
{
    static PyMemberDef members[] = { { "__dictoffset__", T_PYSSIZET, offsetof(Instance, dict), READONLY, nullptr }, {} };
    PyType_Slot slots[] = { { Py_tp_new, (void*)instance_new }, { Py_tp_dealloc, (void*)instance_dealloc },
                            { Py_tp_members, members }, { 0, nullptr } };
    PyType_Spec spec{ strdup(name), sizeof(Instance), 0, Py_TPFLAGS_DEFAULT | Py_TPFLAGS_BASETYPE, slots };
    object t = check(PyType_FromSpec(&spec));
    PyObject_SetAttrString(module.ptr(), name, t.ptr());
    return t;
}

template<typename T, typename... Options> class class_ : public object
{
  public:
    template<typename... E> class_(handle m, const char* name, const E&...) : object(make_type(m, name))
    {
        types()[typeid(T)] = (PyTypeObject*)m_ptr;
        Py_INCREF(m_ptr);
    }
    void put(const char* name, Call c)
    {
        object f = make_function(name, std::move(c));
        object m = check(PyInstanceMethod_New(f.ptr()));
        PyObject_SetAttrString(m_ptr, name, m.ptr());
    }
    template<typename... A, typename... E> class_& def(init_t<A...>, const E&... e)
    {
        auto f = [](handle self, A... a) { hold(self.ptr(), new T(std::forward<A>(a)...)); };
        put("__init__", callable(f, extras(e...), 1));
        return *this;
    }
    template<typename F, typename... E> class_& def(factory_t<F> f, const E&... e)
    {
        return from_factory(std::move(f.f), (typename sig_of<F>::type*)nullptr, e...);
    }
    template<typename F, typename R, typename... A, typename... E>
    class_& from_factory(F f, signature<R, A...>*, const E&... e)
    {
        auto g = [f](handle self, A... a) mutable {
            if constexpr (std::is_same_v<R, T>) hold(self.ptr(), new T(f(std::forward<A>(a)...)));
            else hold(self.ptr(), f(std::forward<A>(a)...).release());
        };
        put("__init__", callable(g, extras(e...), 1));
        return *this;
    }
    template<typename F, typename... E> class_& def(const char* name, F f, const E&... e)
    {
        put(name, callable(as_function<T>(f), extras(e...), 1));
        return *this;
    }
    template<typename F, typename... E> class_& def_static(const char* name, F f, const E&... e)
    {
        object g = make_function(name, callable(f, extras(e...), 0));
        PyObject_SetAttrString(m_ptr, name, check(PyStaticMethod_New(g.ptr())).ptr());
        return *this;
    }
    void property(const char* name, handle get, handle set)
    {
        object p = check(PyObject_CallFunctionObjArgs((PyObject*)&PyProperty_Type, get.ptr(), set ? set.ptr() : Py_None, nullptr));
        PyObject_SetAttrString(m_ptr, name, p.ptr());
    }
    template<typename G, typename S, typename... E> class_& def_property(const char* name, G g, S s, const E&...)
    {
        object get = make_function(name, callable(as_function<T>(g), {}, 1)), set = make_function(name, callable(as_function<T>(s), {}, 1));
        property(name, get, set);
        return *this;
    }
    template<typename G, typename... E> class_& def_property_readonly(const char* name, G g, const E&...)
    {
        property(name, make_function(name, callable(as_function<T>(g), {}, 1)), handle());
        return *this;
    }
    // a member that is a registered type is handed out by reference
    template<typename C, typename M, typename... E> class_& def_readwrite(const char* name, M C::*m, const E&...)
    {
        auto get = [m](handle self) -> object {
            M& member = caster<T>::ref(self).*m;
            if (auto* t = type_of<M>()) {
                object o = check(t->tp_alloc(t, 0));
                auto* i = (Instance*)o.ptr();
                i->value = &member;
                i->del = nullptr;
                i->dict = PyDict_New();
                PyDict_SetItemString(i->dict, "_owner", self.ptr());
                return o;
            }
            return pybind11::cast(member);
        };
        auto set = [m](handle self, const M& v) { caster<T>::ref(self).*m = v; };
        property(name, make_function(name, callable(get, {}, 1)), make_function(name, callable(set, {}, 1)));
        return *this;
    }
    template<typename C, typename M, typename... E> class_& def_readonly(const char* name, M C::*m, const E&...)
    {
        auto get = [m](const T& self) -> M { return self.*m; };
        property(name, make_function(name, callable(get, {}, 1)), handle());
        return *this;
    }
};
template<typename T> class enum_ : public class_<T>
{
    object members;

  public:
    template<typename... E> enum_(handle m, const char* name, const E&... e) : class_<T>(m, name, e...), members(check(PyDict_New()))
    {
        this->def("__int__", [](const T& v) { return (long)v; });
        this->def("__index__", [](const T& v) { return (long)v; });
        this->def("__hash__", [](const T& v) { return (long)v; });
        this->def("__eq__", [](const T& v, handle o) { return PyObject_TypeCheck(o.ptr(), type_of<T>()) && caster<T>::ref(o) == v; });
        this->def_property_readonly("value", [](const T& v) { return (long)v; });
        PyObject_SetAttrString(this->m_ptr, "__members__", members.ptr());
        this->def_property_readonly("name", [d = members](const T& v) {
            PyObject *k, *x;
            Py_ssize_t i = 0;
            while (PyDict_Next(d.ptr(), &i, &k, &x))
                if (caster<T>::ref(x) == v) return std::string(PyUnicode_AsUTF8(k));
            return std::string("???");
        });
        this->def(init([](long v) { return static_cast<T>(v); }));
    }
    enum_& value(const char* n, T v, const char* = nullptr)
    {
        object o = pybind11::cast(v);
        PyDict_SetItemString(members.ptr(), n, o.ptr());
        PyObject_SetAttrString(this->m_ptr, n, o.ptr());
        return *this;
    }
    enum_& export_values() { return *this; }
};
template<typename V, typename... Rest> class_<V> bind_vector(handle m, const char* name, const Rest&...)
{
    using T = typename V::value_type;
    class_<V> c(m, name);
    auto at = [](V& v, long i) -> T& {
        if (i < 0) i += v.size();
        if (i < 0 || i >= (long)v.size()) throw index_error();
        return v[i];
    };
    c.def(init([](args a) {
        V v;
        if (a.size() > 0) v = caster<V>::load(PyTuple_GetItem(a.ptr(), 0));
        return v;
    }));
    c.def("__len__", [](const V& v) { return v.size(); });
    c.def("__bool__", [](const V& v) { return !v.empty(); });
    c.def("append", [](handle self, const T& x) { caster<V>::ref(self).push_back(x); });
    c.def("clear", [](handle self) { caster<V>::ref(self).clear(); });
    c.def("extend", [](handle self, handle l) { for (auto& x : caster<V>::load(l)) caster<V>::ref(self).push_back(x); });
    c.def("insert", [](handle self, long i, const T& x) { auto& v = caster<V>::ref(self); v.insert(v.begin() + (i < 0 ? i + (long)v.size() : i), x); });
    c.def("pop", [](handle self) { auto& v = caster<V>::ref(self); if (v.empty()) throw index_error(); T t = v.back(); v.pop_back(); return t; });
    c.def("__getitem__", [at](handle self, long i) -> object {
        T& x = at(caster<V>::ref(self), i);
        auto* t = type_of<T>();
        if (!t) return pybind11::cast(x);
        object o = check(t->tp_alloc(t, 0)); // by reference
        auto* in = (Instance*)o.ptr();
        in->value = &x;
        in->del = nullptr;
        in->dict = PyDict_New();
        PyDict_SetItemString(in->dict, "_owner", self.ptr());
        return o;
    });
    c.def("__setitem__", [at](handle self, long i, const T& x) { at(caster<V>::ref(self), i) = x; });
    return c;
}
} // namespace pybind11

namespace PYBIND11_NAMESPACE_unused {}
#define PYBIND11_MAKE_OPAQUE(...) namespace pybind11 { template<> struct opaque<__VA_ARGS__> : std::true_type {}; }
#define PYBIND11_MODULE(name, var, ...) \
    static void pybind11_init_##name(pybind11::module_&); \
    extern "C" __attribute__((visibility("default"))) PyObject* PyInit_##name() \
    { \
        static PyModuleDef def{ PyModuleDef_HEAD_INIT, #name, nullptr, -1, nullptr, nullptr, nullptr, nullptr, nullptr }; \
        PyObject* p = PyModule_Create(&def); \
        if (!p) return nullptr; \
        pybind11::module_ m(p, pybind11::borrowed_t{}); \
        try { pybind11_init_##name(m); } \
        catch (pybind11::error_already_set& e) { e.restore(); return nullptr; } \
        catch (const std::exception& e) { PyErr_SetString(PyExc_ImportError, e.what()); return nullptr; } \
        return p; \
    } \
    void pybind11_init_##name(pybind11::module_& var)
