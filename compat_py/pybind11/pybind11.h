// A small stand-in for the part of pybind11 that /repo/python/bindings uses (pybind11 is not installed here).
// Same observable behaviour for what is used: classes with single inheritance, overloads, keyword and default
// arguments, enums, STL conversions, downcasts of polymorphic results, reference_internal lifetimes.
#pragma once

#include <Python.h>

#include <cstdint>
#include <functional>
#include <memory>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <typeindex>
#include <typeinfo>
#include <unordered_map>
#include <utility>
#include <vector>

namespace pybind11 {

struct error_already_set : std::exception {
    const char* what() const noexcept override { return "python error"; }
};

enum class return_value_policy { automatic, copy, move, take_ownership, reference, reference_internal };

class handle {
protected:
    PyObject* p_ = nullptr;

public:
    handle() = default;
    handle(PyObject* p) : p_(p) {}
    PyObject* ptr() const { return p_; }
    bool is_none() const { return p_ == Py_None; }
    template<class T>
    T cast() const;
};

class object : public handle {
public:
    object() = default;
    explicit object(PyObject* owned) : handle(owned) {}
    object(const object& o) : handle(o.p_) { Py_XINCREF(p_); }
    object(object&& o) noexcept : handle(o.p_) { o.p_ = nullptr; }
    object& operator=(object o) noexcept {
        std::swap(p_, o.p_);
        return *this;
    }
    ~object() { Py_XDECREF(p_); }
    PyObject* release() {
        auto p = p_;
        p_ = nullptr;
        return p;
    }
    static object borrow(PyObject* p) {
        Py_XINCREF(p);
        return object(p);
    }
};

class none : public object {
public:
    none() : object(object::borrow(Py_None)) {}
};

class list : public object {
public:
    list() : object(PyList_New(0)) {}
    explicit list(object o) : object(std::move(o)) {}
    struct iterator {
        PyObject* l;
        Py_ssize_t i;
        handle operator*() const { return PyList_GetItem(l, i); }
        iterator& operator++() {
            ++i;
            return *this;
        }
        bool operator!=(const iterator& o) const { return i != o.i; }
    };
    iterator begin() const { return {p_, 0}; }
    iterator end() const { return {p_, PyList_Size(p_)}; }
    size_t size() const { return PyList_Size(p_); }
};

template<class T>
PyObject* to_python(T&& value, return_value_policy policy, PyObject* parent);

class dict : public object {
public:
    dict() : object(PyDict_New()) {}
    struct item {
        PyObject* d;
        std::string key;
        template<class T>
        item& operator=(T&& v) {
            PyObject* o;
            if constexpr (std::is_base_of_v<handle, std::remove_cvref_t<T>>) {
                o = v.ptr();
                Py_XINCREF(o);
            } else {
                o = to_python(std::forward<T>(v), return_value_policy::automatic, nullptr);
            }
            PyDict_SetItemString(d, key.c_str(), o);
            Py_XDECREF(o);
            return *this;
        }
    };
    item operator[](const char* key) { return {p_, key}; }
};

// ---------------------------------------------------------------- registry

struct instance {
    PyObject_HEAD
    void* ptr;
    bool owned;
    PyObject* keep;
};

struct overload {
    std::vector<std::string> names;
    std::vector<object> defaults;  // null object: required
    size_t count = 0;
    // returns nullptr with *ok=false when the arguments do not convert
    std::function<PyObject*(std::vector<PyObject*>&, bool*)> call;
};

struct function_record {
    std::string name;
    std::vector<overload> overloads;
    PyMethodDef def{};
};

struct type_record {
    std::string name;
    PyTypeObject* type = nullptr;
    type_record* base = nullptr;
    void* (*upcast)(void*) = nullptr;
    void (*destroy)(void*) = nullptr;
    std::unordered_map<std::string, function_record*> functions;
};

inline std::unordered_map<std::type_index, type_record*>& types() {
    static std::unordered_map<std::type_index, type_record*> t;
    return t;
}
inline std::unordered_map<PyTypeObject*, type_record*>& types_by_object() {
    static std::unordered_map<PyTypeObject*, type_record*> t;
    return t;
}
inline std::unordered_map<std::type_index, PyObject*>& enums() {
    static std::unordered_map<std::type_index, PyObject*> t;
    return t;
}
inline type_record* record_of(const std::type_info& ti) {
    auto it = types().find(std::type_index(ti));
    return it == types().end() ? nullptr : it->second;
}
inline type_record* record_of_object(PyObject* o) {
    for (PyTypeObject* t = Py_TYPE(o); t; t = t->tp_base) {
        auto it = types_by_object().find(t);
        if (it != types_by_object().end()) return it->second;
    }
    return nullptr;
}
// Pointer to the C++ object of type `want` inside o, or null
inline void* pointer_of(PyObject* o, type_record* want) {
    if (!o || !want) return nullptr;
    type_record* r = record_of_object(o);
    if (!r) return nullptr;
    void* p = reinterpret_cast<instance*>(o)->ptr;
    while (r && r != want) {
        if (!r->base || !p) return nullptr;
        p = r->upcast(p);
        r = r->base;
    }
    return r ? p : nullptr;
}
inline PyObject* wrap(void* p, type_record* r, bool owned, PyObject* keep) {
    PyObject* o = r->type->tp_alloc(r->type, 0);
    auto* i = reinterpret_cast<instance*>(o);
    i->ptr = p;
    i->owned = owned;
    i->keep = keep;
    Py_XINCREF(keep);
    return o;
}

// ---------------------------------------------------------------- to python

template<class T>
struct is_unique : std::false_type {};
template<class T>
struct is_unique<std::unique_ptr<T>> : std::true_type {};
template<class T>
struct is_vector : std::false_type {};
template<class T>
struct is_vector<std::vector<T>> : std::true_type {};
template<class T>
struct is_str_map : std::false_type {};
template<class V>
struct is_str_map<std::unordered_map<std::string, V>> : std::true_type {};

template<class T>
std::pair<void*, type_record*> most_derived(T* p) {
    if constexpr (std::is_polymorphic_v<T>) {
        if (p) {
            if (auto* r = record_of(typeid(*p))) {
                return {const_cast<void*>(dynamic_cast<const void*>(p)), r};
            }
        }
    }
    return {const_cast<void*>(static_cast<const void*>(p)), record_of(typeid(T))};
}

template<class T>
PyObject* to_python(T&& value, return_value_policy policy, PyObject* parent) {
    using U = std::remove_cvref_t<T>;
    if constexpr (std::is_same_v<U, bool>) {
        return PyBool_FromLong(value);
    } else if constexpr (std::is_same_v<U, std::nullptr_t>) {
        Py_RETURN_NONE;
    } else if constexpr (std::is_enum_v<U>) {
        auto it = enums().find(std::type_index(typeid(U)));
        if (it == enums().end()) {
            PyErr_SetString(PyExc_TypeError, "enum not registered");
            return nullptr;
        }
        return PyObject_CallFunction(it->second, "L", (long long) value);
    } else if constexpr (std::is_integral_v<U> && std::is_unsigned_v<U>) {
        return PyLong_FromUnsignedLongLong(value);
    } else if constexpr (std::is_integral_v<U>) {
        return PyLong_FromLongLong(value);
    } else if constexpr (std::is_floating_point_v<U>) {
        return PyFloat_FromDouble(value);
    } else if constexpr (std::is_same_v<U, std::string>) {
        return PyUnicode_FromStringAndSize(value.data(), value.size());
    } else if constexpr (std::is_array_v<U> || std::is_same_v<U, const char*> || std::is_same_v<U, char*>) {
        return PyUnicode_FromString(value);
    } else if constexpr (std::is_base_of_v<handle, U>) {
        PyObject* o = value.ptr();
        Py_XINCREF(o);
        return o;
    } else if constexpr (is_vector<U>::value) {
        PyObject* l = PyList_New(0);
        for (auto& x : value) {
            PyObject* o = to_python(x, policy, parent);
            PyList_Append(l, o);
            Py_XDECREF(o);
        }
        return l;
    } else if constexpr (is_str_map<U>::value) {
        PyObject* d = PyDict_New();
        for (auto& [k, v] : value) {
            PyObject* o = to_python(v, policy, parent);
            PyDict_SetItemString(d, k.c_str(), o);
            Py_XDECREF(o);
        }
        return d;
    } else if constexpr (is_unique<U>::value) {
        if (!value) Py_RETURN_NONE;
        auto [p, r] = most_derived(value.get());
        if (!r) {
            PyErr_SetString(PyExc_TypeError, "type not registered");
            return nullptr;
        }
        auto* o = wrap(p, r, true, nullptr);
        const_cast<std::remove_const_t<U>&>(value).release();
        return o;
    } else if constexpr (std::is_pointer_v<U>) {
        if (!value) Py_RETURN_NONE;
        auto [p, r] = most_derived(value);
        if (!r) {
            PyErr_SetString(PyExc_TypeError, "type not registered");
            return nullptr;
        }
        bool own = policy == return_value_policy::automatic || policy == return_value_policy::take_ownership;
        return wrap(p, r, own, policy == return_value_policy::reference_internal ? parent : nullptr);
    } else {
        bool ref = std::is_lvalue_reference_v<T> &&
                   (policy == return_value_policy::reference || policy == return_value_policy::reference_internal);
        if (ref) {
            auto [p, r] = most_derived(&value);
            if (!r) {
                PyErr_SetString(PyExc_TypeError, "type not registered");
                return nullptr;
            }
            return wrap(p, r, false, policy == return_value_policy::reference_internal ? parent : nullptr);
        }
        type_record* r = record_of(typeid(U));
        if (!r) {
            PyErr_SetString(PyExc_TypeError, "type not registered");
            return nullptr;
        }
        if constexpr (std::is_lvalue_reference_v<T>) {
            if constexpr (std::is_copy_constructible_v<U> && !std::is_abstract_v<U>) {
                return wrap(new U(value), r, true, nullptr);
            } else {
                PyErr_SetString(PyExc_TypeError, "result cannot be copied");
                return nullptr;
            }
        } else {
            return wrap(new U(std::move(value)), r, true, nullptr);
        }
    }
}

template<class T>
object cast(T&& value, return_value_policy policy = return_value_policy::automatic) {
    return object(to_python(std::forward<T>(value), policy, nullptr));
}

// ---------------------------------------------------------------- from python

template<class U, class = void>
struct loader {
    U* p = nullptr;
    bool load(PyObject* o) {
        p = static_cast<U*>(pointer_of(o, record_of(typeid(U))));
        return p != nullptr;
    }
    U& get() { return *p; }
};
template<class T>
struct loader<T*> {
    using V = std::remove_cv_t<T>;
    V* p = nullptr;
    bool load(PyObject* o) {
        if (o == Py_None) return true;
        p = static_cast<V*>(pointer_of(o, record_of(typeid(V))));
        return p != nullptr;
    }
    V*& get() { return p; }
};
template<>
struct loader<bool> {
    bool v = false;
    bool load(PyObject* o) {
        if (o == Py_True || o == Py_False) {
            v = o == Py_True;
            return true;
        }
        return false;
    }
    bool& get() { return v; }
};
template<class T>
struct loader<T, std::enable_if_t<std::is_integral_v<T> && !std::is_same_v<T, bool>>> {
    T v = 0;
    bool load(PyObject* o) {
        if (PyFloat_Check(o) || !PyIndex_Check(o)) return false;
        PyObject* i = PyNumber_Index(o);
        if (!i) {
            PyErr_Clear();
            return false;
        }
        if constexpr (std::is_unsigned_v<T>)
            v = (T) PyLong_AsUnsignedLongLong(i);
        else
            v = (T) PyLong_AsLongLong(i);
        Py_DECREF(i);
        if (PyErr_Occurred()) {
            PyErr_Clear();
            return false;
        }
        return true;
    }
    T& get() { return v; }
};
template<class T>
struct loader<T, std::enable_if_t<std::is_floating_point_v<T>>> {
    T v = 0;
    bool load(PyObject* o) {
        v = (T) PyFloat_AsDouble(o);
        if (PyErr_Occurred()) {
            PyErr_Clear();
            return false;
        }
        return true;
    }
    T& get() { return v; }
};
template<class T>
struct loader<T, std::enable_if_t<std::is_enum_v<T>>> {
    T v{};
    bool load(PyObject* o) {
        auto it = enums().find(std::type_index(typeid(T)));
        if (it == enums().end() || PyObject_IsInstance(o, it->second) != 1) return false;
        PyObject* i = PyObject_GetAttrString(o, "value");
        v = (T) PyLong_AsLongLong(i);
        Py_XDECREF(i);
        return true;
    }
    T& get() { return v; }
};
template<>
struct loader<std::string> {
    std::string v;
    bool load(PyObject* o) {
        if (!PyUnicode_Check(o)) return false;
        Py_ssize_t n;
        const char* s = PyUnicode_AsUTF8AndSize(o, &n);
        if (!s) {
            PyErr_Clear();
            return false;
        }
        v.assign(s, n);
        return true;
    }
    std::string& get() { return v; }
};
template<class T>
struct loader<std::vector<T>> {
    std::vector<T> v;
    bool load(PyObject* o) {
        if (PyUnicode_Check(o) || !PySequence_Check(o)) return false;
        Py_ssize_t n = PySequence_Size(o);
        for (Py_ssize_t i = 0; i < n; i++) {
            PyObject* x = PySequence_GetItem(o, i);
            loader<T> l;
            bool ok = x && l.load(x);
            if (ok) v.push_back(l.get());
            Py_XDECREF(x);
            if (!ok) {
                PyErr_Clear();
                return false;
            }
        }
        return true;
    }
    std::vector<T>& get() { return v; }
};
template<class V>
struct loader<std::unordered_map<std::string, V>> {
    std::unordered_map<std::string, V> v;
    bool load(PyObject* o) {
        if (!PyDict_Check(o)) return false;
        PyObject *k, *x;
        Py_ssize_t pos = 0;
        while (PyDict_Next(o, &pos, &k, &x)) {
            loader<std::string> lk;
            loader<V> lv;
            if (!lk.load(k) || !lv.load(x)) return false;
            v[lk.get()] = lv.get();
        }
        return true;
    }
    std::unordered_map<std::string, V>& get() { return v; }
};
template<>
struct loader<object> {
    object v;
    bool load(PyObject* o) {
        v = object::borrow(o);
        return true;
    }
    object& get() { return v; }
};
template<>
struct loader<list> {
    list v;
    bool load(PyObject* o) {
        if (!PyList_Check(o)) return false;
        v = list(object::borrow(o));
        return true;
    }
    list& get() { return v; }
};

template<class T>
bool isinstance(const handle& h) {
    return pointer_of(h.ptr(), record_of(typeid(T))) != nullptr;
}
template<class T>
T handle::cast() const {
    loader<std::remove_cvref_t<T>> l;
    if (!l.load(p_)) throw std::runtime_error("Unable to cast Python instance");
    return static_cast<T>(l.get());
}

// ---------------------------------------------------------------- functions

struct arg_v {
    std::string name;
    object value;
};
struct arg {
    std::string name;
    explicit arg(const char* n) : name(n) {}
    template<class T>
    arg_v operator=(T&& v) const {
        PyObject* o = to_python(std::forward<T>(v), return_value_policy::automatic, nullptr);
        if (!o) throw error_already_set();
        return {name, object(o)};
    }
};

struct extras {
    std::vector<std::string> names;
    std::vector<object> defaults;
    return_value_policy policy;
    void add(const arg& a) {
        names.push_back(a.name);
        defaults.emplace_back();
    }
    void add(const arg_v& a) {
        names.push_back(a.name);
        defaults.push_back(a.value);
    }
    void add(return_value_policy p) { policy = p; }
    void add(const char*) {}
};

template<class F>
struct signature : signature<decltype(&F::operator())> {};
template<class R, class... A>
struct signature<R (*)(A...)> {
    using ret = R;
    using args = std::tuple<A...>;
};
template<class C, class R, class... A>
struct signature<R (C::*)(A...)> {
    using ret = R;
    using args = std::tuple<A...>;
};
template<class C, class R, class... A>
struct signature<R (C::*)(A...) const> {
    using ret = R;
    using args = std::tuple<A...>;
};

template<class R, class... A, class F, size_t... I>
PyObject* invoke(F& f, std::vector<PyObject*>& in, bool* ok, return_value_policy policy, std::index_sequence<I...>) {
    std::tuple<loader<std::remove_cvref_t<A>>...> ls;
    *ok = (std::get<I>(ls).load(in[I]) && ...);
    if (!*ok) return nullptr;
    try {
        if constexpr (std::is_void_v<R>) {
            f(static_cast<A>(std::get<I>(ls).get())...);
            Py_RETURN_NONE;
        } else {
            PyObject* parent = sizeof...(A) > 0 ? in[0] : nullptr;
            return to_python<R>(f(static_cast<A>(std::get<I>(ls).get())...), policy, parent);
        }
    } catch (const error_already_set&) {
        if (!PyErr_Occurred()) PyErr_SetString(PyExc_RuntimeError, "python error");
    } catch (const std::invalid_argument& e) {
        PyErr_SetString(PyExc_ValueError, e.what());
    } catch (const std::domain_error& e) {
        PyErr_SetString(PyExc_ValueError, e.what());
    } catch (const std::out_of_range& e) {
        PyErr_SetString(PyExc_IndexError, e.what());
    } catch (const std::exception& e) {
        PyErr_SetString(PyExc_RuntimeError, e.what());
    } catch (...) {
        PyErr_SetString(PyExc_RuntimeError, "unknown C++ exception");
    }
    return nullptr;
}

template<class R, class... A, class F>
overload make_overload(F f, extras e, bool method, std::tuple<A...>*) {
    overload o;
    o.count = sizeof...(A);
    size_t skip = method ? 1 : 0;
    if (!e.names.empty() && e.names.size() + skip != o.count) throw std::runtime_error("argument names do not match");
    o.names.resize(o.count);
    o.defaults.resize(o.count);
    for (size_t i = 0; i < e.names.size(); i++) {
        o.names[i + skip] = e.names[i];
        o.defaults[i + skip] = e.defaults[i];
    }
    auto policy = e.policy;
    o.call = [f, policy](std::vector<PyObject*>& in, bool* ok) mutable {
        return invoke<R, A...>(f, in, ok, policy, std::index_sequence_for<A...>{});
    };
    return o;
}

inline PyObject* dispatch(PyObject* self, PyObject* args, PyObject* kwargs) {
    auto* rec = static_cast<function_record*>(PyCapsule_GetPointer(self, nullptr));
    Py_ssize_t given = PyTuple_Size(args);
    for (auto& o : rec->overloads) {
        if ((size_t) given > o.count) continue;
        std::vector<PyObject*> in(o.count, nullptr);
        for (Py_ssize_t i = 0; i < given; i++) in[i] = PyTuple_GetItem(args, i);
        bool fits = true;
        size_t used = 0;
        for (size_t i = 0; i < o.count; i++) {
            PyObject* k = nullptr;
            if (kwargs && !o.names[i].empty()) k = PyDict_GetItemString(kwargs, o.names[i].c_str());
            if (k) {
                if (in[i]) fits = false;
                in[i] = k;
                used++;
            } else if (!in[i]) {
                in[i] = o.defaults[i].ptr();
                if (!in[i]) fits = false;
            }
        }
        if (kwargs && used != (size_t) PyDict_Size(kwargs)) fits = false;
        if (!fits) continue;
        bool ok = false;
        PyObject* r = o.call(in, &ok);
        if (ok) return r;
    }
    std::string text = rec->name + "(): incompatible function arguments: ";
    PyObject* repr = PyObject_Repr(args);
    if (repr) text += PyUnicode_AsUTF8(repr);
    Py_XDECREF(repr);
    PyErr_SetString(PyExc_TypeError, text.c_str());
    return nullptr;
}

inline PyObject* make_function(function_record* rec) {
    rec->def.ml_name = rec->name.c_str();
    rec->def.ml_meth = reinterpret_cast<PyCFunction>(reinterpret_cast<void (*)()>(dispatch));
    rec->def.ml_flags = METH_VARARGS | METH_KEYWORDS;
    PyObject* capsule = PyCapsule_New(rec, nullptr, nullptr);
    PyObject* f = PyCFunction_NewEx(&rec->def, capsule, nullptr);
    Py_DECREF(capsule);
    return f;
}

// ---------------------------------------------------------------- modules, classes, enums

class module_ : public object {
public:
    using object::object;
    PyObject*& raw() { return p_; }
    struct doc_ref {
        template<class T>
        void operator=(T&&) {}
    };
    doc_ref doc() { return {}; }
    template<class F, class... X>
    module_& def(const char* name, F f, X&&... x) {
        auto* rec = new function_record;
        rec->name = name;
        extras e;
        e.policy = return_value_policy::automatic;
        (e.add(x), ...);
        using S = signature<F>;
        rec->overloads.push_back(make_overload<typename S::ret>(f, e, false, (typename S::args*) nullptr));
        PyObject* fn = make_function(rec);
        PyObject_SetAttrString(p_, name, fn);
        Py_DECREF(fn);
        return *this;
    }
};
using module = module_;

template<class... A>
struct init_t {};
template<class F>
struct init_f {
    F f;
};
template<class... A>
init_t<A...> init() {
    return {};
}
template<class F>
init_f<F> init(F f) {
    return {f};
}

inline PyObject* instance_new(PyTypeObject* t, PyObject*, PyObject*) { return t->tp_alloc(t, 0); }
inline void instance_dealloc(PyObject* o) {
    auto* i = reinterpret_cast<instance*>(o);
    if (i->owned && i->ptr) {
        if (auto* r = record_of_object(o)) r->destroy(i->ptr);
    }
    Py_XDECREF(i->keep);
    PyTypeObject* t = Py_TYPE(o);
    t->tp_free(o);
    Py_DECREF(t);
}

template<class T, class... Base>
class class_ {
    type_record* rec_;

    function_record* function(const std::string& name, bool* fresh) {
        auto it = rec_->functions.find(name);
        *fresh = it == rec_->functions.end();
        if (*fresh) {
            auto* r = new function_record;
            r->name = name;
            rec_->functions[name] = r;
            return r;
        }
        return it->second;
    }
    void add_method(const std::string& name, overload o, bool is_static) {
        bool fresh;
        auto* r = function(name, &fresh);
        r->overloads.push_back(std::move(o));
        if (!fresh) return;
        PyObject* f = make_function(r);
        PyObject* m = is_static ? PyStaticMethod_New(f) : PyInstanceMethod_New(f);
        PyObject_SetAttrString((PyObject*) rec_->type, name.c_str(), m);
        Py_DECREF(f);
        Py_DECREF(m);
    }
    template<class C, class R, class... A>
    static auto bind(R (C::*pm)(A...)) {
        return [pm](C& self, A... a) -> R { return (self.*pm)(std::forward<A>(a)...); };
    }
    template<class C, class R, class... A>
    static auto bind(R (C::*pm)(A...) const) {
        return [pm](const C& self, A... a) -> R { return (self.*pm)(std::forward<A>(a)...); };
    }
    template<class F>
    static auto bind(F f) {
        return f;
    }
    static T* placed(T* p) { return p; }

public:
    class_(module_& m, const char* name) {
        rec_ = new type_record;
        rec_->name = name;
        rec_->destroy = [](void* p) {
            if constexpr (std::is_destructible_v<T>) delete static_cast<T*>(p);
        };
        PyObject* bases = nullptr;
        if constexpr (sizeof...(Base) == 1) {
            using B = std::tuple_element_t<0, std::tuple<Base...>>;
            rec_->base = record_of(typeid(B));
            rec_->upcast = [](void* p) -> void* { return static_cast<B*>(static_cast<T*>(p)); };
            bases = PyTuple_Pack(1, (PyObject*) rec_->base->type);
        }
        static std::vector<std::unique_ptr<std::string>> names;
        names.push_back(std::make_unique<std::string>(std::string("docc.sdfg._sdfg.") + name));
        PyType_Slot slots[] = {
            {Py_tp_new, (void*) instance_new}, {Py_tp_dealloc, (void*) instance_dealloc}, {0, nullptr}
        };
        PyType_Spec spec = {
            names.back()->c_str(), (int) sizeof(instance), 0, Py_TPFLAGS_DEFAULT | Py_TPFLAGS_BASETYPE, slots
        };
        rec_->type = (PyTypeObject*) PyType_FromSpecWithBases(&spec, bases);
        Py_XDECREF(bases);
        if (!rec_->type) throw error_already_set();
        types()[std::type_index(typeid(T))] = rec_;
        types_by_object()[rec_->type] = rec_;
        PyObject_SetAttrString(m.ptr(), name, (PyObject*) rec_->type);
    }

    template<class F, class... X>
    class_& def(const char* name, F f, X&&... x) {
        extras e;
        e.policy = return_value_policy::automatic;
        (e.add(x), ...);
        auto g = bind(f);
        using S = signature<decltype(g)>;
        add_method(name, make_overload<typename S::ret>(g, e, true, (typename S::args*) nullptr), false);
        return *this;
    }
    template<class F, class... X>
    class_& def_static(const char* name, F f, X&&... x) {
        extras e;
        e.policy = return_value_policy::automatic;
        (e.add(x), ...);
        using S = signature<F>;
        add_method(name, make_overload<typename S::ret>(f, e, false, (typename S::args*) nullptr), true);
        return *this;
    }
    template<class F, class... X>
    class_& def_property_readonly(const char* name, F f, X&&... x) {
        extras e;
        e.policy = return_value_policy::reference_internal;
        (e.add(x), ...);
        auto g = bind(f);
        using S = signature<decltype(g)>;
        auto* r = new function_record;
        r->name = name;
        r->overloads.push_back(make_overload<typename S::ret>(g, e, true, (typename S::args*) nullptr));
        PyObject* fn = make_function(r);
        PyObject* prop = PyObject_CallFunctionObjArgs((PyObject*) &PyProperty_Type, fn, nullptr);
        PyObject_SetAttrString((PyObject*) rec_->type, name, prop);
        Py_DECREF(fn);
        Py_DECREF(prop);
        return *this;
    }
    template<class... A, class... X>
    class_& def(init_t<A...>, X&&... x) {
        extras e;
        e.policy = return_value_policy::automatic;
        (e.add(x), ...);
        auto g = [](object self, A... a) -> void {
            auto* i = reinterpret_cast<instance*>(self.ptr());
            i->ptr = new T(std::forward<A>(a)...);
            i->owned = true;
        };
        using S = signature<decltype(g)>;
        add_method("__init__", make_overload<void>(g, e, true, (typename S::args*) nullptr), false);
        return *this;
    }
    template<class F, class... X>
    class_& def(init_f<F> f, X&&... x) {
        using S = signature<F>;
        return def_factory(f.f, (typename S::args*) nullptr, std::forward<X>(x)...);
    }
    template<class F, class... A, class... X>
    class_& def_factory(F f, std::tuple<A...>*, X&&... x) {
        extras e;
        e.policy = return_value_policy::automatic;
        (e.add(x), ...);
        auto g = [f](object self, A... a) -> void {
            auto* i = reinterpret_cast<instance*>(self.ptr());
            i->ptr = f(std::forward<A>(a)...);
            i->owned = true;
        };
        using S = signature<decltype(g)>;
        add_method("__init__", make_overload<void>(g, e, true, (typename S::args*) nullptr), false);
        return *this;
    }
};

template<class E>
class enum_ {
    module_ m_;
    std::string name_;
    PyObject* items_;
    bool done_ = false;

    void finish() {
        if (done_) return;
        done_ = true;
        PyObject* lib = PyImport_ImportModule("enum");
        PyObject* type = PyObject_CallMethod(lib, "Enum", "sO", name_.c_str(), items_);
        if (!type) throw error_already_set();
        enums()[std::type_index(typeid(E))] = type;
        PyObject_SetAttrString(m_.ptr(), name_.c_str(), type);
        Py_XDECREF(lib);
    }

public:
    enum_(module_& m, const char* name) : m_(m), name_(name), items_(PyList_New(0)) {}
    ~enum_() {
        finish();
        Py_DECREF(items_);
    }
    enum_& value(const char* name, E v) {
        PyObject* t = Py_BuildValue("(sL)", name, (long long) v);
        PyList_Append(items_, t);
        Py_DECREF(t);
        return *this;
    }
    enum_& export_values() {
        finish();
        PyObject* type = enums()[std::type_index(typeid(E))];
        for (Py_ssize_t i = 0; i < PyList_Size(items_); i++) {
            PyObject* name = PyTuple_GetItem(PyList_GetItem(items_, i), 0);
            PyObject* v = PyObject_GetAttr(type, name);
            PyObject_SetAttr(m_.ptr(), name, v);
            Py_XDECREF(v);
        }
        return *this;
    }
};

} // namespace pybind11

#define PYBIND11_MODULE(name, var)                                                            \
    static void pybind11_init_##name(pybind11::module_& var);                                 \
    extern "C" __attribute__((visibility("default"))) PyObject* PyInit_##name() {             \
        static PyModuleDef def = {PyModuleDef_HEAD_INIT, #name, nullptr, -1, nullptr};        \
        PyObject* m = PyModule_Create(&def);                                                  \
        if (!m) return nullptr;                                                               \
        Py_INCREF(m);                                                                         \
        pybind11::module_ mod(m);                                                             \
        try {                                                                                 \
            pybind11_init_##name(mod);                                                        \
        } catch (const std::exception& e) {                                                   \
            if (!PyErr_Occurred()) PyErr_SetString(PyExc_ImportError, e.what());              \
            return nullptr;                                                                   \
        }                                                                                     \
        return m;                                                                             \
    }                                                                                         \
    static void pybind11_init_##name(pybind11::module_& var)
